//! S01: station identities.
use crate::engine::*;
use plusendi::{StationId, StationIdRef};
use proptest::prelude::*;

/// Hand-written matcher of the callsign grammar: digit? letters+ digits+ letter alnum* (-SSID)?
pub fn is_identity(s: &str) -> bool {
    let b = s.as_bytes();
    let (call, ssid) = match b.iter().position(|c| *c == b'-') {
        Some(i) => (&b[..i], Some(&b[i + 1..])),
        None => (b, None),
    };
    if let Some(x) = ssid {
        if x.is_empty() || x.len() > 2 || !x.iter().all(u8::is_ascii_alphanumeric) {
            return false;
        }
    }
    let mut i = 0;
    if call.first().map_or(false, u8::is_ascii_digit) {
        i = 1;
    }
    let run = |i: usize, f: fn(&u8) -> bool| call[i..].iter().take_while(|c| f(c)).count();
    let letters = run(i, u8::is_ascii_alphabetic);
    i += letters;
    let digits = run(i, u8::is_ascii_digit);
    i += digits;
    letters > 0 && digits > 0 && call.get(i).map_or(false, u8::is_ascii_alphabetic) && call[i..].iter().all(u8::is_ascii_alphanumeric)
}

fn identity(s: &String, obs: &mut Obs) -> Result<(), String> {
    let want = is_identity(s);
    let made = StationId::new(s.clone()).ok();
    obs.label(if want { "identity" } else { "not an identity" });
    obs.label_if(want && s.bytes().any(|b| b.is_ascii_lowercase()), "identity with lower case");
    obs.label_if(want && s.contains('-'), "identity with SSID");
    obs.nontrivial_if(want || s.len() > 2);
    let parsed: Option<StationId> = s.parse().ok();
    let borrowed = StationIdRef::from_str(s).ok().map(|c| c.into_owned());
    let converted = StationId::try_from(s.as_str()).ok();
    for (how, other) in [("FromStr", &parsed), ("StationIdRef", &borrowed), ("TryFrom", &converted)] {
        if other.as_ref().map(|x| x.as_str()) != made.as_ref().map(|x| x.as_str()) {
            return Err(format!("{:?}: StationId::new gives {:?}, {} gives {:?}", s, made, how, other));
        }
    }
    match (&made, want) {
        (Some(_), false) => return Err(format!("{:?} is accepted as a station identity", s)),
        (None, true) => return Err(format!("{:?} is rejected as a station identity", s)),
        (None, false) => return Ok(()),
        _ => {}
    }
    let id = made.unwrap();
    let upper = s.to_ascii_uppercase();
    if id.as_str() != upper || id.to_string() != upper {
        return Err(format!("{:?} becomes {:?}", s, id.as_str()));
    }
    let again = StationId::new(id.as_str()).map_err(|_| format!("{:?} is not accepted again", id.as_str()))?;
    if again != id {
        return Err(format!("normalizing {:?} again gives {:?}", id, again));
    }
    for variant in [s.to_ascii_lowercase(), upper.clone(), s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()] {
        let v = StationId::new(variant.clone()).map_err(|_| format!("{:?} accepted but not {:?}", s, variant))?;
        let hash = |x: &StationId| {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            h.finish()
        };
        if v != id || hash(&v) != hash(&id) {
            return Err(format!("{:?} and {:?} are different identities", s, variant));
        }
    }
    Ok(())
}

pub fn s01(ctx: &Ctx) {
    ctx.rule("All texts of up to four characters over an alphabet of classes, generated callsigns in any case, and callsigns with generated defects (prefixes, suffixes, control characters, non-ASCII, embedded lines); non-trivial = an identity, or more than two characters.");
    // one or more representatives of each character class
    let classes: Vec<char> = "aZ09- \r\n/_.é\0\u{7f}Kß４".chars().collect();
    if ctx.replay.is_none() {
        let (mut n, mut yes) = (0u64, 0u64);
        let k = classes.len();
        for len in 0..=5u32 {
            for x in 0..k.pow(len) {
                let mut y = x;
                let mut s = String::new();
                for _ in 0..len {
                    s.push(classes[y % k]);
                    y /= k;
                }
                n += 1;
                let want = is_identity(&s);
                yes += u64::from(want);
                if guarded(|| StationId::new(s.clone()).is_ok()) != Ok(want) {
                    let m = guarded(|| identity(&s, &mut Obs::default())).unwrap_or_else(Err);
                    ctx.violate("texts", serde_json::to_value(&s).unwrap(), &m.err().unwrap_or_default());
                    return;
                }
            }
        }
        ctx.exhaustive("all texts of up to 5 characters over 17 representatives", n, yes);
    }
    let call = || "[0-9]?[A-Za-z]{1,3}[0-9]{1,3}[A-Za-z][A-Za-z0-9]{0,4}(-[A-Za-z0-9]{1,2})?";
    let noise = || prop_oneof![
        2 => prop::sample::select(vec![" ", "\r", "\n", "\t", "\0", "-", "/P", "--1", "-123", "\rABORT", " via W1AW", "\u{a0}", "é", "ı", "ſ", "K", "４", "0", "A", ";", "x "]).prop_map(|s: &str| s.to_string()),
        1 => "[ -~]{1,3}",
        1 => any::<char>().prop_map(|c| c.to_string()),
    ];
    let texts = move || prop_oneof![
        4 => call().prop_map(|s: String| s),
        2 => (call(), noise()).prop_map(|(a, b)| a + &b),
        2 => (noise(), call()).prop_map(|(a, b)| a + &b),
        2 => (call(), noise(), any::<prop::sample::Index>()).prop_map(|(a, b, i)| { let i = i.index(a.len() + 1); format!("{}{}{}", &a[..i], b, &a[i..]) }),
        1 => (call(), prop::sample::select(vec![" ", "\r", "\n", "\r\n", ","]), call()).prop_map(|(a, s, b)| format!("{}{}{}", a, s, b)),
        2 => "[0-9A-Za-z-]{0,10}".prop_map(|s: String| s),
        1 => "[0-9]{0,3}[A-Z]{0,4}[0-9]{0,4}[A-Z]{0,4}".prop_map(|s: String| s),
        1 => "\\PC{0,8}".prop_map(|s: String| s),
        1 => "[A-Z]{1,40}[0-9]{1,40}[A-Z0-9]{1,60}".prop_map(|s: String| s),
    ];
    ctx.run("texts", ctx.scale(300_000, 10), texts, identity);
}
