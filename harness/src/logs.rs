//! A tracing subscriber with every level enabled that formats every field, as a verbose logging
//! configuration would.
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use tracing::field::{Field, Visit};
use tracing::span;
use tracing::{Dispatch, Event, Metadata, Subscriber};

struct Verbose {
    next: AtomicU64,
}

struct Sink;
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}
impl Visit for Sink {
    fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
        let _ = write!(self, "{}={:?}", field.name(), value);
    }
}

impl Subscriber for Verbose {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, attrs: &span::Attributes<'_>) -> span::Id {
        attrs.record(&mut Sink);
        span::Id::from_u64(self.next.fetch_add(1, Ordering::Relaxed) + 1)
    }
    fn record(&self, _: &span::Id, values: &span::Record<'_>) {
        values.record(&mut Sink)
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, event: &Event<'_>) {
        event.record(&mut Sink)
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn verbose() -> &'static Dispatch {
    static D: OnceLock<Dispatch> = OnceLock::new();
    D.get_or_init(|| Dispatch::new(Verbose { next: AtomicU64::new(0) }))
}

/// Runs `f` with all logging on, or with none.
pub fn with_logging<T>(on: bool, f: impl FnOnce() -> T) -> T {
    if on {
        tracing::dispatcher::with_default(verbose(), f)
    } else {
        f()
    }
}
