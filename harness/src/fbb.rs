//! B01-B04: binary message frames. F01-F03: proposals and answers.
use crate::engine::*;
use crate::logs::with_logging;
use crate::lz::crc_ref;
use crate::lzref;
use crate::text::{self, Seg, Tok};
use plusendi::fbb::MessageType;
use plusendi::verif::fbb::{self, Outcome};
use plusendi::verif::lzhuf;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- reference framing

/// A frame's content before it is put on the wire.
#[derive(Clone, Debug)]
struct Content {
    title: Vec<u8>,
    offset: Vec<u8>,
    crc: u16,
    size: u32,
    data: Vec<u8>,
}

impl Content {
    fn crc_bytes(size: u32, data: &[u8]) -> u16 {
        let mut v = size.to_le_bytes().to_vec();
        v.extend(data);
        crc_ref(&v)
    }

    /// CRC, size and data as the blocks carry them.
    fn body(&self) -> Vec<u8> {
        let mut v = self.crc.to_le_bytes().to_vec();
        v.extend(self.size.to_le_bytes());
        v.extend(&self.data);
        v
    }

    fn header(&self) -> Vec<u8> {
        let mut v = self.title.clone();
        v.push(0);
        v.extend(&self.offset);
        v.push(0);
        let mut out = vec![1, v.len() as u8];
        out.extend(v);
        out
    }
}

fn negsum(bytes: &[u8]) -> u8 {
    bytes.iter().fold(0u8, |a, b| a.wrapping_sub(*b))
}

/// Cuts `body` into blocks; the sizes are used in turn (the first block holds at least six bytes).
fn divide(body: &[u8], sizes: &[u16]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut at = 0;
    let mut i = 0;
    while at < body.len() {
        let mut n = if sizes.is_empty() { 250 } else { (sizes[i % sizes.len()] as usize).clamp(1, 256) };
        if at == 0 {
            n = n.max(6);
        }
        let n = n.min(body.len() - at);
        out.push(body[at..at + n].to_vec());
        at += n;
        i += 1;
    }
    out
}

fn frame(header: &[u8], blocks: &[Vec<u8>], checksum: u8) -> Vec<u8> {
    let mut out = header.to_vec();
    for b in blocks {
        out.extend([2, b.len() as u8]);
        out.extend(b);
    }
    out.extend([4, checksum]);
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    /// The text, compressed by the compressor under test.
    Ours(Vec<Seg>),
    /// Tokens, compressed by the reference encoder.
    Theirs(Vec<Tok>),
    /// Arbitrary compressed bytes and size.
    Raw(u32, Vec<u8>),
    /// Many arbitrary compressed bytes.
    Bulk { size: u32, seed: u64, n: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    title: String,
    offset: u32,
    /// Leading zeros of the offset.
    zeros: u8,
    body: Body,
    sizes: Vec<u16>,
    tail: Vec<u8>,
}

impl Spec {
    fn content(&self) -> (Content, Option<Vec<u8>>) {
        let (text, size, data) = match &self.body {
            Body::Ours(s) => {
                let t = text::expand(s);
                let p = lzhuf::encode(&t);
                (Some(t.clone()), t.len() as u32, p)
            }
            Body::Theirs(t) => {
                let tokens = text::tokens(t);
                let t = lzref::expand(&tokens);
                (Some(t.clone()), t.len() as u32, lzref::encode(&tokens).bytes)
            }
            Body::Raw(n, d) => (None, *n, d.clone()),
            Body::Bulk { size, seed, n } => {
                let mut x = seed | 1;
                let bytes = (0..*n).map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8
                });
                (None, *size, bytes.collect())
            }
        };
        let mut title = self.title.as_bytes().to_vec();
        title.truncate(80);
        let mut offset = "0".repeat(self.zeros as usize % 6).into_bytes();
        offset.extend(self.offset.to_string().bytes());
        while offset.len() > 6 && offset[0] == b'0' {
            offset.remove(0);
        }
        // the header holds 88 bytes
        title.truncate(86 - offset.len());
        (Content { title, offset, crc: Content::crc_bytes(size, &data), size, data }, text)
    }
}

fn title() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[ -~]{0,30}",
        1 => "[ -~]{0,80}",
        1 => "[ -~]{78,80}",
        1 => Just(String::new()),
        1 => Just(" ".repeat(80)),
    ]
}

fn offset() -> impl Strategy<Value = u32> {
    prop_oneof![
        6 => Just(0u32),
        4 => 0u32..1_000_000,
        2 => prop::sample::select(vec![1, 255, 256, 32767, 32768, 65535, 65536, 65537, 99_999, 100_000, 999_999]),
        1 => prop_oneof![2 => any::<u32>(), 1 => prop::sample::select(vec![1_000_000, (1 << 24) - 1, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX])],
    ]
}

fn sizes() -> impl Strategy<Value = Vec<u16>> {
    prop_oneof![
        1 => Just(vec![]),
        1 => Just(vec![256u16]),
        1 => Just(vec![1u16]),
        2 => prop::collection::vec(prop_oneof![3 => 1u16..257, 1 => prop::sample::select(vec![1u16, 2, 5, 6, 7, 8, 127, 128, 129, 249, 250, 251, 254, 255, 256])], 1..5),
    ]
}

fn body(big: bool) -> BoxedStrategy<Body> {
    let m = if big { 20_000 } else { 800 };
    prop_oneof![
        2 => text::text(5, m).prop_map(Body::Ours),
        2 => text::toks(if big { 12 } else { 4 }).prop_map(Body::Theirs),
        2 => (any::<u32>(), prop::collection::vec(any::<u8>(), 0..if big { 3000 } else { 300 })).prop_map(|(n, d)| Body::Raw(n, d)),
        1 => (any::<u32>(), prop::collection::vec(prop_oneof![Just(0u8), Just(1u8), Just(2u8), Just(4u8), Just(0xffu8)], 0..60)).prop_map(|(n, d)| Body::Raw(n, d)),
    ]
    .boxed()
}

fn spec(big: bool) -> impl Strategy<Value = Spec> {
    (title(), offset(), any::<u8>(), body(big), sizes(), prop::collection::vec(any::<u8>(), 0..12))
        .prop_map(|(title, offset, zeros, body, sizes, tail)| Spec { title, offset, zeros, body, sizes, tail })
}

// ---------------------------------------------------------------- B01

fn show<T: std::fmt::Debug>(o: &Outcome<T>) -> String {
    let s = format!("{:?}", o);
    if s.len() > 200 {
        format!("{}…", s.chars().take(200).collect::<String>())
    } else {
        s
    }
}

fn reads_back(s: &Spec, obs: &mut Obs) -> Result<(), String> {
    let (c, text) = s.content();
    let body = c.body();
    let blocks = divide(&body, &s.sizes);
    let mut wire = frame(&c.header(), &blocks, negsum(&body));
    obs.nontrivial_if(!c.data.is_empty());
    obs.label_if(blocks.len() > 1, "several blocks");
    obs.label_if(blocks.len() > 40, "more than 40 blocks");
    obs.label_if(blocks.len() > 1000, "more than 1000 blocks");
    obs.label_if(body.len() > 65536, "more than 64 KiB of blocks");
    obs.label_if(blocks.iter().any(|b| b.len() == 256), "block of 256");
    obs.label_if(blocks.iter().any(|b| b.len() == 1), "block of 1");
    obs.label_if(blocks[0].len() == 6, "first block has no data");
    obs.label_if(c.header().len() == 90, "header of 88");
    obs.label_if(text.is_some(), "decompressed");
    obs.label_if(text.as_ref().map_or(false, |t| t.len() > 1 << 20), "text of more than 1 MiB");
    obs.label_if(text.as_ref().map_or(false, |t| t.len() > 1 << 24), "text of more than 16 MiB");
    obs.label_if(negsum(&body) == 0x80, "checksum 0x80");
    let want = fbb::Message {
        title: String::from_utf8(c.title.clone()).unwrap(),
        offset: std::str::from_utf8(&c.offset).unwrap().parse().unwrap(),
        crc16: c.crc,
        uncompressed_size: c.size as u64,
        blocks: std::iter::once(blocks[0][6..].to_vec()).chain(blocks[1..].iter().cloned()).collect(),
    };
    wire.extend(&s.tail);
    match fbb::message(&wire) {
        Outcome::Done(m, rest) => {
            if rest != s.tail.len() {
                return Err(format!("{} bytes left unread, {} follow the frame", rest, s.tail.len()));
            }
            if m.title != want.title || m.offset != want.offset || m.crc16 != want.crc16 || m.uncompressed_size != want.uncompressed_size {
                return Err(format!("read as title {:?} offset {} CRC {:04x} size {}, sent {:?} {} {:04x} {}", m.title, m.offset, m.crc16, m.uncompressed_size, want.title, want.offset, want.crc16, want.uncompressed_size));
            }
            // empty blocks carry nothing; compare what they carry and how it is divided
            let strip = |b: &Vec<Vec<u8>>| b.iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>();
            if strip(&m.blocks) != strip(&want.blocks) {
                return Err("the data blocks read differ from those sent".into());
            }
        }
        o => return Err(format!("a well-formed frame of {} blocks is not read: {}", blocks.len(), show(&o))),
    }
    if let Some(text) = text {
        match fbb::message_text(&wire) {
            Outcome::Done(Ok(t), _) if t == text => {}
            Outcome::Done(Ok(t), _) => return Err(format!("message decompresses to {} other bytes (text has {})", t.len(), text.len())),
            o => return Err(format!("message does not decompress: {}", show(&o))),
        }
    }
    Ok(())
}

/// A frame in order whose compressed bytes end early.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Short {
    spec: Spec,
    lost: u16,
}

fn ends_early(s: &Short, obs: &mut Obs) -> Result<(), String> {
    let (mut c, text) = s.spec.content();
    let Some(text) = text.filter(|t| !t.is_empty()) else { return Ok(()) };
    let lost = 1 + s.lost as usize % c.data.len();
    c.data.truncate(c.data.len() - lost);
    c.crc = Content::crc_bytes(c.size, &c.data);
    let body = c.body();
    let wire = frame(&c.header(), &divide(&body, &s.spec.sizes), negsum(&body));
    obs.nontrivial_if(!c.data.is_empty());
    obs.label_if(lost == 1, "one byte missing");
    match fbb::message_text(&wire) {
        Outcome::Done(Err(_), 0) => Ok(()),
        Outcome::Done(Ok(t), _) => Err(format!("{} bytes of text from data that end {} bytes before its end (text has {})", t.len(), lost, text.len())),
        o => Err(format!("a frame whose checksum and CRC match is not read: {}", show(&o))),
    }
}

pub fn b01(ctx: &Ctx) {
    ctx.rule("Frames built by the reference framer from generated titles, offsets, bodies (compressed texts, reference token streams, raw bytes), block divisions and following bytes; non-trivial = the frame carries compressed data.");
    let mut v = Vec::new();
    for n in 0..=300usize {
        v.push(Spec { title: "~".repeat(n % 81), offset: n as u32 * 4000 % 1_000_000, zeros: 0, body: Body::Raw(n as u32, vec![n as u8; n]), sizes: vec![256], tail: vec![] });
        v.push(Spec { title: "a".into(), offset: 0, zeros: 0, body: Body::Raw(1 << (n % 32), (0..n).map(|i| (i * 7) as u8).collect()), sizes: vec![n as u16], tail: vec![1] });
    }
    ctx.each("boundary", v, reads_back);
    ctx.run("frames", ctx.scale(120_000, 10), || spec(false), reads_back);
    ctx.run("big", ctx.scale(1_500, 10), || spec(true), reads_back);
    ctx.run("data ending early", ctx.scale(40_000, 10), || (spec(false), prop_oneof![1 => Just(0u16), 1 => 0u16..8, 2 => any::<u16>()]).prop_map(|(spec, lost)| Short { spec, lost }), ends_early);
    let bulk = || (any::<u32>(), any::<u64>(), 60_000u32..400_000).prop_map(|(size, seed, n)| Body::Bulk { size, seed, n });
    let long = || text::long_text().prop_map(Body::Ours);
    let huge = move || {
        (title(), offset(), any::<u8>(), prop_oneof![3 => bulk().boxed(), 1 => long().boxed()], sizes(), prop::collection::vec(any::<u8>(), 0..12))
            .prop_map(|(title, offset, zeros, body, sizes, tail)| Spec { title, offset, zeros, body, sizes, tail })
    };
    let mut v = Vec::new();
    for n in [1_000u32, 30_000, 290_000] {
        let toks = vec![Tok::Mix { seed: n as u64, n: 2500, alpha: 256, rep: 20, maxdist: 2000 }, Tok::Again { n, dist: 1999, len: 57 }, Tok::All { start: 7 }];
        v.push(Spec { title: "long text".into(), offset: 0, zeros: 0, body: Body::Theirs(toks), sizes: vec![], tail: vec![] });
    }
    ctx.each("long text", v, reads_back);
    ctx.run("huge", ctx.scale(160, 10), huge, reads_back);
}

// ---------------------------------------------------------------- B02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// XOR one byte of the body (CRC, size, data) or, past its end, the checksum.
    Byte { at: u16, xor: u8 },
    /// XOR up to 16 consecutive bits of size and data.
    Burst { at: u32, pattern: u16 },
    /// XOR a byte and repair the checksum.
    CrcOnly { at: u16, xor: u8 },
    /// Exchange two bytes of the size and data.
    Swap { a: u16, b: u16 },
    /// Change a byte and recompute the CRC, leaving the checksum.
    SumOnly { at: u16, xor: u8 },
    /// Several unrelated changes.
    Many(Vec<(u16, u8)>),
    /// Another CRC, with the checksum repaired.
    Crc { xor: u16 },
    /// What another reading of the CRC rule gives, with the checksum repaired.
    OtherCrc(u8),
    /// What another reading of the checksum rule gives.
    OtherSum(u8),
    /// Move this many bytes' worth of value between two bytes (sum unchanged).
    Shift { a: u16, b: u16, by: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damaged {
    spec: Spec,
    damage: Damage,
}

fn damaged(c: &Damaged, obs: &mut Obs) -> Result<(), String> {
    let (content, _) = c.spec.content();
    let good = content.body();
    let mut body = good.clone();
    let mut sum = negsum(&good);
    let n = body.len();
    let inner = |a: u16| 2 + a as usize % (n - 2);
    let recrc = |body: &mut Vec<u8>| {
        let crc = crc_ref(&body[2..]).to_le_bytes();
        body[0] = crc[0];
        body[1] = crc[1];
    };
    let guaranteed = match &c.damage {
        Damage::Byte { at, xor } => {
            let at = *at as usize % (n + 1);
            let x = (*xor).max(1);
            if at == n {
                sum ^= x
            } else {
                body[at] ^= x
            }
            obs.label(if at == n { "checksum byte" } else if at < 2 { "CRC byte" } else if at < 6 { "size byte" } else { "data byte" });
            true
        }
        Damage::Burst { at, pattern } => {
            let bits = (n - 2) * 8;
            let start = *at as usize % bits;
            let mut any = false;
            for i in 0..16 {
                if pattern >> i & 1 == 1 && start + i < bits {
                    any = true;
                    // bit order of the CRC: most significant first
                    body[2 + (start + i) / 8] ^= 0x80 >> ((start + i) % 8);
                }
            }
            obs.label("burst");
            any
        }
        Damage::CrcOnly { at, xor } => {
            body[inner(*at)] ^= (*xor).max(1);
            sum = negsum(&body);
            obs.label("checksum repaired");
            true
        }
        Damage::Swap { a, b } => {
            body.swap(inner(*a), inner(*b));
            obs.label("bytes exchanged");
            false
        }
        Damage::SumOnly { at, xor } => {
            body[inner(*at)] ^= (*xor).max(1);
            recrc(&mut body);
            obs.label("CRC recomputed");
            false
        }
        Damage::Many(v) => {
            for (at, x) in v {
                body[*at as usize % n] ^= x;
            }
            false
        }
        Damage::Crc { xor } => {
            body[0] ^= *xor as u8;
            body[1] ^= (*xor >> 8) as u8;
            sum = negsum(&body);
            obs.label("another CRC");
            *xor != 0
        }
        Damage::OtherCrc(kind) => {
            let crc = other_crc(*kind, &body[2..], &c.spec);
            body[..2].copy_from_slice(&crc.to_le_bytes());
            sum = negsum(&body);
            obs.label("CRC by another rule");
            false
        }
        Damage::OtherSum(kind) => {
            let plain = negsum(&good).wrapping_neg();
            let data = good[6..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
            let inner = good[2..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
            let xor = good.iter().fold(0u8, |a, b| a ^ b);
            sum = [plain, !plain, data, data.wrapping_neg(), inner, inner.wrapping_neg(), xor, xor.wrapping_neg(), 0, 0xff, 4, sum.wrapping_add(4), sum.wrapping_sub(4), sum.wrapping_add(1), sum.wrapping_sub(1), sum.reverse_bits(), plain.wrapping_add(good.len() as u8).wrapping_neg()][*kind as usize % 17];
            obs.label("checksum by another rule");
            false
        }
        Damage::Shift { a, b, by } => {
            let (a, b) = (inner(*a), inner(*b));
            body[a] = body[a].wrapping_add(*by);
            body[b] = body[b].wrapping_sub(*by);
            obs.label("sum preserved");
            false
        }
    };
    let sum_ok = negsum(&body) == sum;
    let crc_ok = crc_ref(&body[2..]) == u16::from_le_bytes([body[0], body[1]]);
    let valid = sum_ok && crc_ok;
    if guaranteed && valid {
        return Err(format!("{}: harness damage left the frame valid", INCONCLUSIVE));
    }
    obs.label(match (sum_ok, crc_ok) {
        (true, true) => "still valid",
        (false, true) => "only the checksum disagrees",
        (true, false) => "only the CRC disagrees",
        (false, false) => "both disagree",
    });
    obs.nontrivial_if(!valid);
    let blocks = divide(&body, &c.spec.sizes);
    let wire = frame(&content.header(), &blocks, sum);
    match (fbb::message(&wire), valid) {
        (Outcome::Done(..), false) => Err(format!("accepted although {} ({:?})", if sum_ok { "its CRC-16 disagrees" } else if crc_ok { "its checksum disagrees" } else { "checksum and CRC-16 disagree" }, c.damage)),
        (Outcome::Incomplete(_), _) => Err("a complete frame is reported as incomplete".into()),
        (Outcome::Error, true) => Err("a frame with matching checksum and CRC is rejected".into()),
        _ => Ok(()),
    }
}

/// The CRC by rules that differ from the format's in one respect; `bytes` are the size and the data.
fn other_crc(kind: u8, bytes: &[u8], spec: &Spec) -> u16 {
    fn crc(init: u16, poly: u16, reflected: bool, bytes: &mut dyn Iterator<Item = u8>) -> u16 {
        bytes.fold(init, |mut crc, b| {
            crc ^= if reflected { b as u16 } else { (b as u16) << 8 };
            for _ in 0..8 {
                crc = match (reflected, crc) {
                    (false, c) => c << 1 ^ if c & 0x8000 != 0 { poly } else { 0 },
                    (true, c) => c >> 1 ^ if c & 1 != 0 { poly.reverse_bits() } else { 0 },
                };
            }
            crc
        })
    }
    let plain = || bytes.iter().copied();
    let true_crc = crc(0, 0x1021, false, &mut plain());
    match kind % 18 {
        0 => true_crc.swap_bytes(),
        1 => !true_crc,
        2 => true_crc.reverse_bits(),
        3 => crc(0xffff, 0x1021, false, &mut plain()),
        4 => crc(0x1d0f, 0x1021, false, &mut plain()),
        5 => crc(0, 0x1021, true, &mut plain()),
        6 => crc(0xffff, 0x1021, true, &mut plain()),
        7 => !crc(0xffff, 0x1021, true, &mut plain()),
        8 => crc(0, 0x8005, false, &mut plain()),
        9 => crc(0, 0x1021, false, &mut bytes[4..].iter().copied()),
        10 => crc(0, 0x1021, false, &mut bytes[..4].iter().copied()),
        // with the size's bytes in the other order
        11 => crc(0, 0x1021, false, &mut bytes[..4].iter().rev().chain(&bytes[4..]).copied()),
        // with the blocks' lengths
        12 => {
            let body: Vec<u8> = [0, 0].iter().chain(bytes).copied().collect();
            let blocks = divide(&body, &spec.sizes);
            let wire: Vec<u8> = blocks.iter().flat_map(|b| std::iter::once(b.len() as u8).chain(b.iter().copied())).collect();
            crc(0, 0x1021, false, &mut wire.into_iter())
        }
        13 => 0,
        14 => 0xffff,
        15 => bytes.iter().fold(0u16, |a, b| a.wrapping_add(*b as u16)),
        // with two bytes of zeros behind, or without the last byte
        16 => crc(0, 0x1021, false, &mut plain().chain([0, 0])),
        _ => crc(0, 0x1021, false, &mut bytes[..bytes.len() - 1].iter().copied()),
    }
}

fn damage() -> impl Strategy<Value = Damage> {
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(at, xor)| Damage::Byte { at, xor }),
        3 => (any::<u32>(), 1u16..).prop_map(|(at, pattern)| Damage::Burst { at, pattern }),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(at, xor)| Damage::CrcOnly { at, xor }),
        1 => (0u16..8, any::<u8>()).prop_map(|(at, xor)| Damage::CrcOnly { at, xor }),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Damage::Swap { a, b }),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(at, xor)| Damage::SumOnly { at, xor }),
        1 => (0u16..4, any::<u8>()).prop_map(|(at, xor)| Damage::SumOnly { at, xor }),
        1 => prop::collection::vec((any::<u16>(), any::<u8>()), 1..6).prop_map(Damage::Many),
        1 => (1u16..).prop_map(|xor| Damage::Crc { xor }),
        2 => (0u8..18).prop_map(Damage::OtherCrc),
        2 => (0u8..17).prop_map(Damage::OtherSum),
        2 => (any::<u16>(), any::<u16>(), 1u8..).prop_map(|(a, b, by)| Damage::Shift { a, b, by }),
    ]
}

pub fn b02(ctx: &Ctx) {
    ctx.rule("Valid frames damaged in one of ten ways (one byte, a burst of at most 16 bits, checksum repaired, CRC recomputed, bytes exchanged, sum preserved, another CRC, CRC or checksum by 35 similar but different rules, several bytes); a reference recomputation decides what must be accepted; non-trivial = the frame is no longer valid.");
    // complete enumeration on a small frame: every single-byte change of every covered byte
    let base = Spec { title: "t".into(), offset: 0, zeros: 0, body: Body::Raw(9, vec![0xEC, 0xF5, 0x7A, 0x1C, 0x6D]), sizes: vec![8], tail: vec![] };
    let mut v = Vec::new();
    for at in 0..12u16 {
        for xor in 1..=255u8 {
            v.push(Damaged { spec: base.clone(), damage: Damage::Byte { at, xor } });
            if at < 9 {
                v.push(Damaged { spec: base.clone(), damage: Damage::CrcOnly { at, xor } });
                v.push(Damaged { spec: base.clone(), damage: Damage::SumOnly { at, xor } });
            }
        }
    }
    for at in 0..72u32 {
        for p in 0..512u32 {
            let pattern = ((p * 128) as u16) | (p >> 2) as u16 | 1;
            v.push(Damaged { spec: base.clone(), damage: Damage::Burst { at, pattern } });
        }
    }
    ctx.each("small frame", v, damaged);
    ctx.run("damage", ctx.scale(400_000, 10), || (spec(false), damage()).prop_map(|(spec, damage)| Damaged { spec, damage }), damaged);
}

// ---------------------------------------------------------------- B03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cuts {
    spec: Spec,
    at: Vec<u16>,
}

fn piecemeal(c: &Cuts, obs: &mut Obs) -> Result<(), String> {
    let (content, _) = c.spec.content();
    let body = content.body();
    let blocks = divide(&body, &c.spec.sizes);
    let wire = frame(&content.header(), &blocks, negsum(&body));
    obs.nontrivial_if(blocks.len() > 1);
    obs.label_if(blocks.len() > 1, "several blocks");
    let cuts: Vec<usize> = if wire.len() <= 400 { (0..wire.len()).collect() } else { c.at.iter().map(|&a| a as usize * wire.len() / 65536).chain(wire.len() - 8..wire.len()).chain(0..100).collect() };
    obs.add("prefixes", cuts.len() as u64);
    for k in cuts {
        match fbb::message(&wire[..k]) {
            Outcome::Incomplete(None) => {}
            Outcome::Incomplete(Some(n)) if n >= 1 && n <= wire.len() - k => {}
            Outcome::Incomplete(Some(n)) => return Err(format!("after {} of {} bytes the reader asks for {} more", k, wire.len(), n)),
            o => return Err(format!("the first {} of {} bytes of a valid frame give {}", k, wire.len(), show(&o))),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Malformed {
    /// Wrong leading byte, then anything.
    Lead(u8, Vec<u8>),
    /// Header length above 88, then anything.
    Long(u8, Vec<u8>),
    /// A header with this content, followed by anything.
    Header(Vec<u8>, Vec<u8>),
    /// Valid start, this many blocks, then a wrong marker and anything.
    Marker { spec: Spec, blocks: u8, marker: u8, rest: Vec<u8> },
    /// A whole frame whose first block is too short.
    Short { n: u8, more: Vec<Vec<u8>>, sum: u8 },
    /// A whole frame with any checksum or CRC.
    Whole { spec: Spec, crc: u16, sum: u8 },
}

/// True if the header content is title NUL digits NUL.
fn header_ok(h: &[u8]) -> Option<bool> {
    let printable = |b: &u8| (0x20..0x7f).contains(b);
    let Some(i) = h.iter().position(|b| *b == 0) else { return Some(false) };
    if !h[..i].iter().all(printable) {
        return Some(false);
    }
    let rest = &h[i + 1..];
    let Some(j) = rest.iter().position(|b| *b == 0) else { return Some(false) };
    if j == 0 || !rest[..j].iter().all(u8::is_ascii_digit) || j + 1 != rest.len() {
        return Some(false);
    }
    // offsets and titles beyond what a well-formed frame has are left open
    if j > 6 || i > 80 {
        None
    } else {
        Some(true)
    }
}

fn fails_fast(m: &Malformed, obs: &mut Obs) -> Result<(), String> {
    let wire = match m {
        Malformed::Lead(b, v) => {
            obs.label("wrong leading byte");
            let mut w = vec![if *b == 1 { 0 } else { *b }];
            w.extend(v);
            w
        }
        Malformed::Long(n, v) => {
            obs.label("header too long");
            let mut w = vec![1, 89 + *n % 167];
            w.extend(v);
            w
        }
        Malformed::Header(h, v) => {
            let mut w = vec![1, h.len() as u8];
            w.extend(h);
            w.extend(v);
            if h.len() > 88 || header_ok(h) != Some(false) {
                obs.label("header fine after all");
                fbb::message(&w);
                return Ok(());
            }
            obs.label("malformed header");
            w
        }
        Malformed::Marker { spec, blocks, marker, rest } => {
            obs.label("wrong block marker");
            let (content, _) = spec.content();
            let mut w = content.header();
            let all = divide(&content.body(), &spec.sizes);
            for b in &all[..*blocks as usize % (all.len() + 1)] {
                w.extend([2, b.len() as u8]);
                w.extend(b);
            }
            w.push(if *marker == 2 || *marker == 4 { 3 } else { *marker });
            w.extend(rest);
            w
        }
        Malformed::Short { n, more, sum } => {
            obs.label("first block too short");
            let first = vec![7; 1 + *n as usize % 5];
            let mut blocks = vec![first];
            blocks.extend(more.iter().filter(|b| !b.is_empty()).cloned());
            frame(&[1, 3, 0, b'0', 0], &blocks, *sum)
        }
        Malformed::Whole { spec, crc, sum } => {
            let (mut content, _) = spec.content();
            content.crc ^= crc;
            let body = content.body();
            let w = frame(&content.header(), &divide(&body, &spec.sizes), negsum(&body) ^ sum);
            obs.label("whole frame");
            obs.nontrivial_if(*crc != 0 || *sum != 0);
            let ok = *crc == 0 && *sum == 0;
            return match fbb::message(&w) {
                Outcome::Incomplete(_) => Err("a complete frame is reported as incomplete".into()),
                Outcome::Done(..) if !ok => Err("accepted with a wrong checksum or CRC".into()),
                _ => Ok(()),
            };
        }
    };
    obs.nontrivial = true;
    match fbb::message(&wire) {
        Outcome::Error => Ok(()),
        o => Err(format!("input that contradicts the format is not rejected: {} on {}", show(&o), hex(&wire))),
    }
}

fn malformed() -> impl Strategy<Value = Malformed> {
    let any_rest = || prop::collection::vec(any::<u8>(), 0..30);
    // near-valid header contents
    let header = prop_oneof![
        2 => prop::collection::vec(prop_oneof![4 => 0x20u8..0x7f, 2 => Just(0u8), 2 => b'0'..=b'9', 1 => any::<u8>()], 0..20),
        1 => prop::collection::vec(0x20u8..0x7f, 0..89),
        2 => (title(), prop::collection::vec(any::<u8>(), 0..3), "[0-9]{0,4}", prop::collection::vec(any::<u8>(), 0..3)).prop_map(|(t, a, d, b)| {
            let mut v = t.into_bytes();
            v.truncate(70);
            v.push(0);
            v.extend(a);
            v.extend(d.bytes());
            v.push(0);
            v.extend(b);
            v
        }),
        2 => (title(), "[0-9]{1,5}").prop_map(|(t, d)| {
            // final NUL missing
            let mut v = t.into_bytes();
            v.truncate(80);
            v.push(0);
            v.extend(d.bytes());
            v
        }),
        1 => title().prop_map(|t| { let mut v = t.into_bytes(); v.truncate(80); v.extend([0, 0]); v }),
        1 => (prop::collection::vec(0x20u8..0x7f, 0..30), prop_oneof![0u8..0x20, 0x7fu8..], prop::collection::vec(0x20u8..0x7f, 0..30)).prop_map(|(mut a, x, b)| {
            a.push(if x == 0 { 9 } else { x });
            a.extend(b);
            a.extend([0, b'0', 0]);
            a
        }),
    ];
    prop_oneof![
        1 => (any::<u8>(), any_rest()).prop_map(|(b, v)| Malformed::Lead(b, v)),
        1 => (any::<u8>(), any_rest()).prop_map(|(b, v)| Malformed::Long(b, v)),
        6 => (header, any_rest()).prop_map(|(h, v)| Malformed::Header(h, v)),
        3 => (spec(false), any::<u8>(), any::<u8>(), any_rest()).prop_map(|(spec, blocks, marker, rest)| Malformed::Marker { spec, blocks, marker, rest }),
        1 => (any::<u8>(), prop::collection::vec(prop::collection::vec(any::<u8>(), 1..20), 0..3), any::<u8>()).prop_map(|(n, more, sum)| Malformed::Short { n, more, sum }),
        2 => (spec(false), prop_oneof![Just(0u16), any::<u16>()], prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(spec, crc, sum)| Malformed::Whole { spec, crc, sum }),
    ]
}

pub fn b03(ctx: &Ctx) {
    ctx.rule("Every proper prefix (sampled for frames over 400 bytes) of generated valid frames; generated inputs that contradict the format at each place it can be contradicted. Non-trivial = frame of several blocks / contradicting input.");
    let mut v = Vec::new();
    for b in 0..=255u8 {
        v.push(Malformed::Lead(b, vec![]));
        v.push(Malformed::Long(b, vec![]));
        v.push(Malformed::Header(vec![b], vec![]));
        v.push(Malformed::Header(vec![b'A', 0, b, 0], vec![]));
        v.push(Malformed::Header(vec![b'A', 0, b'0', b], vec![]));
        v.push(Malformed::Header(vec![b, 0, b'0', 0, b], vec![]));
    }
    for n in 0..=88usize {
        v.push(Malformed::Header(vec![b'A'; n], vec![]));
        v.push(Malformed::Header(vec![0; n], vec![]));
        v.push(Malformed::Header([vec![b'A'; n.saturating_sub(2)], vec![0, b'1']].concat(), vec![]));
    }
    ctx.each("boundary", v, fails_fast);
    ctx.run("prefixes", ctx.scale(40_000, 10), || (spec(false), prop::collection::vec(any::<u16>(), 0..40)).prop_map(|(spec, at)| Cuts { spec, at }), piecemeal);
    ctx.run("prefixes-big", ctx.scale(300, 10), || (spec(true), prop::collection::vec(any::<u16>(), 0..40)).prop_map(|(spec, at)| Cuts { spec, at }), piecemeal);
    ctx.run("malformed", ctx.scale(400_000, 10), malformed, fails_fast);
}

// ---------------------------------------------------------------- B04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    data: Vec<u8>,
    logging: bool,
}

fn no_crash(h: &Hostile, obs: &mut Obs) -> Result<(), String> {
    obs.label(if h.logging { "all logging on" } else { "logging off" });
    obs.nontrivial_if(h.data.len() >= 4);
    with_logging(h.logging, || {
        let m = fbb::message(&h.data);
        match &m {
            Outcome::Done(m, _) => {
                obs.label("frame accepted");
                // a size beyond memory is not what is looked for here
                if m.uncompressed_size < 1 << 26 {
                    match fbb::message_text(&h.data) {
                        Outcome::Done(r, _) => obs.label(if r.is_ok() { "text" } else { "decompression error" }),
                        _ => return Err("a frame is accepted once and rejected the next time".to_string()),
                    }
                }
            }
            Outcome::Incomplete(_) => obs.label("frame incomplete"),
            Outcome::Error => obs.label("frame rejected"),
        }
        let a = fbb::fbb_proposal(&h.data);
        let b = fbb::winlink_proposal(&h.data);
        obs.label_if(matches!(a, Outcome::Done(..)) || matches!(b, Outcome::Done(..)), "proposal accepted");
        for n in 1..=5 {
            if let Outcome::Done(..) = fbb::selection(&h.data, n) {
                obs.label("answer accepted");
            }
        }
        Ok(())
    })
}

/// A frame with any contents whose checksum and CRC may both be right.
fn hostile() -> impl Strategy<Value = Vec<u8>> {
    let edits = || prop::collection::vec((any::<u16>(), any::<u8>(), 0u8..4), 0..4);
    fn edit(mut w: Vec<u8>, e: Vec<(u16, u8, u8)>) -> Vec<u8> {
        for (at, b, kind) in e {
            let i = at as usize % (w.len() + 1);
            match kind {
                0 if i < w.len() => w[i] = b,
                1 => w.insert(i, b),
                2 if i < w.len() => {
                    w.remove(i);
                }
                3 => w.truncate(i),
                _ => {}
            }
        }
        w
    }
    // what a header may claim as its title and offset
    let digits = || prop_oneof![
        4 => offset().prop_map(|o| o.to_string()),
        1 => "[0-9]{0,40}",
        1 => (prop::sample::select(vec![0u128, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 10_000_000_000]), -2i128..3).prop_map(|(n, d)| (n as i128 + d).to_string()),
        1 => "[-+ 0-9a-f]{0,8}",
    ];
    let head = (prop_oneof![5 => title().prop_map(String::into_bytes), 1 => prop::collection::vec(any::<u8>(), 0..40)], digits());
    let valid = (head, prop_oneof![2 => 0u32..5000, 1 => any::<u32>()], prop::collection::vec(any::<u8>(), 0..200), sizes(), prop_oneof![3 => Just(0u8), 1 => any::<u8>(), 1 => Just(0x80u8)], prop_oneof![3 => Just(0u16), 1 => any::<u16>()])
        .prop_map(|((t, o), n, d, s, sum, crc)| {
            let c = Content { title: t, offset: o.into_bytes(), crc: Content::crc_bytes(n, &d) ^ crc, size: n, data: d };
            let body = c.body();
            frame(&c.header(), &divide(&body, &s), negsum(&body) ^ sum)
        });
    // numbers of any length where the grammar has up to six digits
    let line = prop_oneof![
        (proposal_line(), digits()).prop_map(|(mut p, n)| { if n.len() % 2 == 0 { p.size = n; } p.line() }),
        (winlink_line(), digits()).prop_map(|(mut p, n)| { if n.len() % 3 == 0 { p.size = n } else if n.len() % 3 == 1 { p.packed = n } p.line() }),
        (answer(), digits()).prop_map(|(mut a, n)| { if n.len() % 2 == 0 { a.marks[0].1 = n; } a.line() }),
    ];
    prop_oneof![
        1 => prop::collection::vec(any::<u8>(), 0..60),
        1 => prop::collection::vec(prop::sample::select(b"\x01\x02\x04\x00\x06\x07FABCSEM PBT+-!=YNHLR0123456789\r\xff\xc3".to_vec()), 0..80),
        5 => (valid, edits()).prop_map(|(w, e)| edit(w, e)),
        3 => (line, edits()).prop_map(|(w, e)| edit(w, e)),
    ]
}

pub fn b04(ctx: &Ctx) {
    ctx.rule("Random bytes, token soups, valid frames (also with arbitrary compressed data and sizes) and valid lines, edited or not, each read as a frame, both proposals and answers to 1-5 proposals, with all logging on or off; non-trivial = at least 4 bytes.");
    // every sum of the body and every checksum byte on otherwise fine and damaged frames
    let mut v = Vec::new();
    for k in 0..=255u8 {
        for (crc, d) in [(0u16, 0u8), (0, 0x80), (0, 1), (1, 0), (0xffff, 0)] {
            let data = vec![k, 0, 0];
            let c = Content { title: b"x".to_vec(), offset: b"0".to_vec(), crc: Content::crc_bytes(3, &data) ^ crc, size: 3, data };
            let body = c.body();
            let w = frame(&c.header(), &divide(&body, &[]), negsum(&body) ^ d);
            v.push(Hostile { data: w.clone(), logging: true });
            v.push(Hostile { data: w, logging: false });
        }
        for logging in [false, true] {
            v.push(Hostile { data: vec![k], logging });
            v.push(Hostile { data: vec![1, k], logging });
            v.push(Hostile { data: vec![1, 3, b'A', 0, k], logging });
            v.push(Hostile { data: vec![1, 4, b'A', 0, b'0', 0, k, k, k], logging });
        }
    }
    // numbers around every power of two and of ten, in each place that takes one
    for base in (0..70).map(|n| 1u128 << n).chain((0..25).map(|n| 10u128.pow(n))) {
        for n in [base - 1, base, base + 1] {
            for text in [n.to_string(), format!("00{}", n)] {
                let c = Content { title: b"x".to_vec(), offset: text.clone().into_bytes(), crc: Content::crc_bytes(3, &[1, 2, 3]), size: 3, data: vec![1, 2, 3] };
                let body = c.body();
                v.push(Hostile { data: frame(&c.header(), &divide(&body, &[]), negsum(&body)), logging: false });
                for line in ["FA P A B C D N\r", "FC EM A N 1\r", "FC EM A 1 N\r", "FS !N+++++", "FS +AN-\r"] {
                    v.push(Hostile { data: line.replace('N', &text).into_bytes(), logging: false });
                }
            }
        }
    }
    ctx.each("boundary", v, no_crash);
    ctx.run("hostile", ctx.scale(600_000, 10), || (hostile(), prop::bool::weighted(0.4)).prop_map(|(data, logging)| Hostile { data, logging }), no_crash);
}

// ---------------------------------------------------------------- F01, F02

fn word(max: usize) -> BoxedStrategy<String> {
    let max_s = max;
    prop_oneof![
        4 => prop::collection::vec(prop_oneof![4 => prop::sample::select(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789".to_vec()), 1 => prop::sample::select(b".-_@/$>!#*+~".to_vec()), 1 => 0x21u8..0x7f], 1..=max_s).prop_map(|v| String::from_utf8(v).unwrap()),
        1 => Just("A".repeat(max)),
        1 => Just("7".to_string()),
        1 => (1..=max).prop_map(|n| "0".repeat(n)),
    ]
    .boxed()
}

fn number() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[0-9]{1,6}",
        2 => (0u32..1_000_000).prop_map(|n| n.to_string()),
        2 => prop::sample::select(vec![0u32, 1, 255, 256, 32767, 32768, 65535, 65536, 65537, 99_999, 100_000, 999_999]).prop_map(|n| n.to_string()),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FbbLine {
    tag: char,
    kind: char,
    sender: String,
    mbo: String,
    recipient: String,
    id: String,
    size: String,
}

impl FbbLine {
    fn line(&self) -> Vec<u8> {
        format!("F{} {} {} {} {} {} {}\r", self.tag, self.kind, self.sender, self.mbo, self.recipient, self.id, self.size).into_bytes()
    }
}

fn proposal_line() -> impl Strategy<Value = FbbLine> {
    (prop::sample::select(vec!['A', 'B']), prop::sample::select(vec!['P', 'B', 'T']), word(6), word(40), word(6), word(12), number())
        .prop_map(|(tag, kind, sender, mbo, recipient, id, size)| FbbLine { tag, kind, sender, mbo, recipient, id, size })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FcLine {
    id: String,
    size: String,
    packed: String,
    ext: Option<(String, String, String)>,
}

impl FcLine {
    fn line(&self) -> Vec<u8> {
        let mut s = format!("FC EM {} {} {}", self.id, self.size, self.packed);
        if let Some((a, b, c)) = &self.ext {
            s.push_str(&format!(" {} {} {}", a, b, c));
        }
        s.push('\r');
        s.into_bytes()
    }
}

fn winlink_line() -> impl Strategy<Value = FcLine> {
    (word(12), number(), number(), prop::option::of((word(6), word(40), word(6)))).prop_map(|(id, size, packed, ext)| FcLine { id, size, packed, ext })
}

/// What a reader must make of an input.
#[derive(Debug, PartialEq)]
enum Expect<T> {
    Done(T, usize),
    More,
    Reject,
    /// Rejecting and waiting are both fine (the statement is silent).
    RejectOrMore,
    /// Anything but waiting.
    NotMore,
}

fn compare<T: PartialEq + std::fmt::Debug>(input: &[u8], want: Expect<T>, got: Outcome<T>) -> Result<(), String> {
    let ok = match (&want, &got) {
        (Expect::Done(v, r), Outcome::Done(w, s)) => v == w && r == s,
        (Expect::More, Outcome::Incomplete(_)) => true,
        (Expect::Reject, Outcome::Error) => true,
        (Expect::RejectOrMore, Outcome::Error | Outcome::Incomplete(_)) => true,
        (Expect::NotMore, Outcome::Error | Outcome::Done(..)) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{:?} gives {} instead of {:?}", String::from_utf8_lossy(input), show(&got), want))
    }
}

fn field(b: &[u8], max: usize) -> Option<String> {
    if b.is_empty() || b.len() > max {
        return None;
    }
    String::from_utf8(b.to_vec()).ok()
}

fn digits(b: &[u8]) -> Option<u64> {
    if b.is_empty() || b.len() > 6 || !b.iter().all(u8::is_ascii_digit) {
        return None;
    }
    std::str::from_utf8(b).unwrap().parse().ok()
}

fn reference_fbb(input: &[u8]) -> Expect<fbb::FbbProposal> {
    let Some(end) = input.iter().position(|b| *b == b'\r') else { return Expect::RejectOrMore };
    let parts: Vec<&[u8]> = input[..end].split(|b| *b == b' ').collect();
    let parse = || {
        if parts.len() != 7 || (parts[0] != b"FA" && parts[0] != b"FB") {
            return None;
        }
        Some(fbb::FbbProposal {
            message_type: match parts[1] {
                b"P" => MessageType::Private,
                b"B" => MessageType::Bulletin,
                b"T" => MessageType::Traffic,
                _ => return None,
            },
            sender: field(parts[2], 6)?,
            at_bbs: field(parts[3], 40)?,
            recipient: field(parts[4], 6)?,
            message_id: field(parts[5], 12)?,
            size: digits(parts[6])?,
        })
    };
    match parse() {
        Some(p) => Expect::Done(p, input.len() - end - 1),
        // fields that are not text: how they are read is left open
        None if std::str::from_utf8(&input[..end]).is_err() => Expect::NotMore,
        None => Expect::Reject,
    }
}

fn reference_fc(input: &[u8]) -> Expect<fbb::WinlinkProposal> {
    let Some(end) = input.iter().position(|b| *b == b'\r') else { return Expect::RejectOrMore };
    let parts: Vec<&[u8]> = input[..end].split(|b| *b == b' ').collect();
    let parse = || {
        if (parts.len() != 5 && parts.len() != 8) || parts[0] != b"FC" || parts[1] != b"EM" {
            return None;
        }
        Some(fbb::WinlinkProposal {
            message_id: field(parts[2], 12)?,
            uncompressed_size: digits(parts[3])?,
            compressed_size: digits(parts[4])?,
            extension: if parts.len() == 8 { Some((field(parts[5], 6)?, field(parts[6], 40)?, field(parts[7], 6)?)) } else { None },
        })
    };
    match parse() {
        Some(p) => Expect::Done(p, input.len() - end - 1),
        None if std::str::from_utf8(&input[..end]).is_err() => Expect::NotMore,
        None => Expect::Reject,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edited<L> {
    line: L,
    /// (where, what, how)
    edits: Vec<(u16, u8, u8)>,
    tail: Vec<u8>,
    cut: Option<u16>,
}

fn edited<L: std::fmt::Debug>(line: impl Strategy<Value = L>) -> impl Strategy<Value = Edited<L>> {
    let what = prop_oneof![
        4 => prop::sample::select(b" \r\nFABCEMSPT0123456789+-!".to_vec()),
        2 => 0x20u8..0x7f,
        1 => any::<u8>(),
    ];
    let edits = prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec((any::<u16>(), what, 0u8..7), 1..4)];
    (line, edits, prop::collection::vec(any::<u8>(), 0..6), prop::option::weighted(0.2, any::<u16>())).prop_map(|(line, edits, tail, cut)| Edited { line, edits, tail, cut })
}

impl<L> Edited<L> {
    /// The bytes to read, and whether they are a proper prefix of an unedited line.
    fn input(&self, line: Vec<u8>) -> (Vec<u8>, bool) {
        let mut w = line;
        let body = w.len();
        for (at, b, how) in &self.edits {
            let n = w.len();
            if n < 2 {
                break;
            }
            let i = *at as usize % n;
            match how {
                0 => w[i] = *b,
                1 => w.insert(i, *b),
                2 => {
                    w.remove(i);
                }
                3 => {
                    // field boundary edits
                    if let Some(k) = w[i..].iter().position(|x| *x == b' ') {
                        w.insert(i + k, *b)
                    }
                }
                4 => {
                    if let Some(k) = w[i..].iter().position(|x| *x == b' ') {
                        w.remove(i + k);
                    }
                }
                5 => {
                    // drop one whole field
                    if let Some(k) = w[i..].iter().position(|x| *x == b' ') {
                        let s = i + k;
                        let e = w[s + 1..].iter().position(|x| *x == b' ' || *x == b'\r').map_or(w.len(), |e| s + 1 + e);
                        w.drain(s..e);
                    }
                }
                _ => {
                    // lengthen a field
                    if let Some(k) = w[i..].iter().position(|x| *x == b' ') {
                        for _ in 0..(*b % 13) {
                            w.insert(i + k, b'1')
                        }
                    }
                }
            }
        }
        if self.edits.is_empty() {
            if let Some(c) = self.cut {
                w.truncate(c as usize % body);
                return (w, true);
            }
        }
        w.extend(&self.tail);
        (w, false)
    }
}

fn note<T>(obs: &mut Obs, e: &Expect<T>) {
    obs.label(match e {
        Expect::Done(..) => "valid",
        Expect::More => "cut short",
        Expect::Reject => "invalid",
        Expect::RejectOrMore => "unterminated",
        Expect::NotMore => "not text",
    });
    obs.nontrivial_if(matches!(e, Expect::Done(..) | Expect::More | Expect::Reject));
}

fn fbb_line(e: &Edited<FbbLine>, obs: &mut Obs) -> Result<(), String> {
    let (input, prefix) = e.input(e.line.line());
    let want = if prefix { Expect::More } else { reference_fbb(&input) };
    note(obs, &want);
    if let Expect::Done(p, _) = &want {
        obs.label_if(p.size > 65535, "size above 65535");
    }
    compare(&input, want, fbb::fbb_proposal(&input))
}

fn fc_line(e: &Edited<FcLine>, obs: &mut Obs) -> Result<(), String> {
    let (input, prefix) = e.input(e.line.line());
    let want = if prefix { Expect::More } else { reference_fc(&input) };
    note(obs, &want);
    if let Expect::Done(p, _) = &want {
        obs.label_if(p.extension.is_some(), "with addressee");
        obs.label_if(p.uncompressed_size > 65535 || p.compressed_size > 65535, "size above 65535");
    }
    compare(&input, want, fbb::winlink_proposal(&input))
}

pub fn f01(ctx: &Ctx) {
    ctx.rule("Valid FA/FB lines, the same lines cut short, and lines with generated edits (bytes replaced, inserted, removed, fields dropped or lengthened), followed by other bytes; a splitting reference parser decides; non-trivial = the statement settles the outcome.");
    ctx.run("lines", ctx.scale(800_000, 10), || edited(proposal_line()), fbb_line);
    ctx.run("soup", ctx.scale(200_000, 10), soup, |s: &Vec<u8>, obs: &mut Obs| {
        let want = reference_fbb(s);
        note(obs, &want);
        compare(s, want, fbb::fbb_proposal(s))
    });
}

fn soup() -> impl Strategy<Value = Vec<u8>> {
    let part = prop_oneof![
        2 => prop::sample::select(vec!["FA", "FB", "FC", "FS", "F>", "EM", "P", "B", "T", "A"]).prop_map(|s| s.to_string()),
        2 => word(14),
        2 => number(),
        1 => "[0-9]{7}",
    ];
    (prop::sample::select(vec!["FA P", "FB B", "FC EM", "FA", "FC", ""]), prop::collection::vec((part, prop::sample::select(vec![" ", " ", " ", " ", "  ", "\r", ""])), 0..9), any::<bool>()).prop_map(|(head, parts, end)| {
        let mut s = head.to_string();
        for (p, sep) in parts {
            s.push_str(sep);
            s.push_str(&p);
        }
        if end {
            s.push('\r');
        }
        s.into_bytes()
    })
}

pub fn f02(ctx: &Ctx) {
    ctx.rule("Valid FC lines with and without addressee, the same lines cut short, and lines with generated edits, followed by other bytes; a splitting reference parser decides; non-trivial = the statement settles the outcome.");
    ctx.run("lines", ctx.scale(800_000, 10), || edited(winlink_line()), fc_line);
    ctx.run("soup", ctx.scale(200_000, 10), soup, |s: &Vec<u8>, obs: &mut Obs| {
        let want = reference_fc(s);
        note(obs, &want);
        compare(s, want, fbb::winlink_proposal(s))
    });
}

// ---------------------------------------------------------------- F03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Answer {
    marks: Vec<(char, String)>,
}

impl Answer {
    fn line(&self) -> Vec<u8> {
        let mut s = String::from("FS ");
        for (m, d) in &self.marks {
            s.push(*m);
            if *m == '!' || *m == 'A' {
                s.push_str(d);
            }
        }
        s.push('\r');
        s.into_bytes()
    }
}

fn answer() -> impl Strategy<Value = Answer> {
    prop::collection::vec((prop::sample::select("+YH!A=L-NRE!A+-".chars().collect::<Vec<_>>()), number()), 1..6).prop_map(|marks| Answer { marks })
}

fn reference_answer(input: &[u8], count: usize) -> Expect<Vec<fbb::Choice>> {
    let head = b"FS ";
    let n = input.len().min(3);
    if input[..n] != head[..n] {
        return Expect::Reject;
    }
    if input.len() < 3 {
        return Expect::More;
    }
    let mut at = 3;
    let mut out = Vec::new();
    while out.len() < count {
        let Some(&m) = input.get(at) else { return Expect::More };
        at += 1;
        out.push(match m {
            b'+' | b'Y' | b'H' => fbb::Choice::Accept(0),
            b'=' | b'L' => fbb::Choice::Defer,
            b'-' | b'N' | b'R' | b'E' => fbb::Choice::Reject,
            b'!' | b'A' => {
                let d = input[at..].iter().take(6).take_while(|b| b.is_ascii_digit()).count();
                if at + d == input.len() && d < 6 {
                    // more digits may follow
                    return Expect::More;
                }
                if d == 0 {
                    return Expect::Reject;
                }
                let v = std::str::from_utf8(&input[at..at + d]).unwrap().parse().unwrap();
                at += d;
                if d == 6 && input.get(at).map_or(false, u8::is_ascii_digit) {
                    // an offset of seven digits is malformed; where that shows is left open
                    return if out.len() + 1 == count { Expect::NotMore } else { Expect::Reject };
                }
                fbb::Choice::Accept(v)
            }
            _ => return Expect::Reject,
        });
    }
    Expect::Done(out, input.len() - at)
}

fn answers(e: &(Edited<Answer>, u8), obs: &mut Obs) -> Result<(), String> {
    let (e, extra) = e;
    let (input, _) = e.input(e.line.line());
    let n = e.line.marks.len();
    let count = if *extra < 200 { n } else { 1 + *extra as usize % 5 };
    let want = reference_answer(&input, count);
    note(obs, &want);
    if let Expect::Done(v, _) = &want {
        obs.label_if(v.len() == 5, "five answers");
        obs.label_if(v.iter().any(|c| matches!(c, fbb::Choice::Accept(n) if *n > 65535)), "offset above 65535");
        obs.label_if(v.iter().filter(|c| matches!(c, fbb::Choice::Accept(n) if *n > 0)).count() > 1, "several offsets");
    }
    compare(&input, want, fbb::selection(&input, count))
}

pub fn f03(ctx: &Ctx) {
    ctx.rule("Answers of 1 to 5 marks (also read for another number of proposals), cut short or edited, followed by other bytes; a scanning reference decides; non-trivial = the statement settles the outcome.");
    if ctx.replay.is_none() {
        // all answers of one and two marks over all bytes
        let mut n = 0;
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                for count in 1..=2 {
                    n += 1;
                    let input = [b'F', b'S', b' ', a, b, b'\r'];
                    let r = guarded(|| compare(&input, reference_answer(&input, count), fbb::selection(&input, count))).unwrap_or_else(Err);
                    if let Err(m) = r {
                        ctx.violate("soup", serde_json::to_value((input.to_vec(), count as u8)).unwrap(), &m);
                        return;
                    }
                }
            }
        }
        ctx.exhaustive("all two-byte answers to one and two proposals", n, n);
    }
    ctx.run("answers", ctx.scale(800_000, 10), || (edited(answer()), any::<u8>()), answers);
    let soup = || (prop::collection::vec(prop_oneof![4 => prop::sample::select(b"+YH!A=L-NRE0123456789".to_vec()), 1 => prop::sample::select(b"FS \r\n".to_vec()), 1 => any::<u8>()], 0..14), 1u8..6, prop::bool::weighted(0.9)).prop_map(|(mut v, n, head)| {
        if head {
            v.splice(0..0, *b"FS ");
        }
        (v, n)
    });
    ctx.run("soup", ctx.scale(200_000, 10), soup, |(input, count): &(Vec<u8>, u8), obs: &mut Obs| {
        let want = reference_answer(input, *count as usize);
        note(obs, &want);
        compare(input, want, fbb::selection(input, *count as usize))
    });
}
