//! L01-L06: the LZHUF codec and the CRC.
use crate::engine::*;
use crate::lzref::{self, Token};
use crate::text::{self, Seg, Tok};
use plusendi::verif::{crc16, lzhuf};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} and {} bytes, first difference at {}", a.len(), b.len(), i)
}

/// Texts every format boundary occurs in: single bytes, all lengths around the look-ahead, all
/// repeat distances and lengths.
fn boundary_texts() -> Vec<Vec<Seg>> {
    let mut v: Vec<Vec<Seg>> = vec![vec![]];
    for b in 0..=255u8 {
        v.push(vec![Seg::Raw(vec![b])]);
    }
    for n in 1..200u32 {
        v.push(vec![Seg::Run(b'M', n)]);
        v.push(vec![Seg::Run(b' ', n)]);
        v.push(vec![Seg::Alpha { seed: n as u64, base: 0, alpha: 256, len: n }]);
        v.push(vec![Seg::Alpha { seed: n as u64, base: b' ', alpha: 2, len: n }]);
    }
    // a repeat of length l at distance d, distinguishable surroundings
    for d in (1..2060u32).step_by(3).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1986, 1987, 1988, 1989, 1990, 2046, 2047, 2048]) {
        let l = 3 + d % 58;
        v.push(vec![
            Seg::Alpha { seed: d as u64, base: 0, alpha: 256, len: d + d % 7 },
            Seg::Copy(d, l),
            Seg::Alpha { seed: d as u64 + 1, base: 0, alpha: 256, len: d % 5 },
        ]);
    }
    for l in 1..64u32 {
        v.push(vec![Seg::Alpha { seed: l as u64, base: 0, alpha: 256, len: 300 }, Seg::Copy(280, l)]);
        v.push(vec![Seg::Alpha { seed: l as u64, base: 0, alpha: 256, len: 300 }, Seg::Copy(280, l), Seg::Raw(vec![1, 2, 3])]);
    }
    for n in [2046, 2047, 2048, 2049, 2106, 2107, 2108, 4094, 4095, 4096, 4097] {
        v.push(vec![Seg::Alpha { seed: n as u64, base: 0, alpha: 256, len: n }]);
        v.push(vec![Seg::Alpha { seed: n as u64, base: 0, alpha: 3, len: n }]);
        v.push(vec![Seg::Run(0, n)]);
    }
    v
}

/// Texts that drive unused symbols to codes of 16 and 17 bits and then use every symbol.
fn deep_texts() -> Vec<Vec<Seg>> {
    let mut v = Vec::new();
    for (i, (kinds, n)) in [(7u8, 26_000u32), (7, 28_000), (7, 31_900), (8, 31_900), (8, 28_000), (8, 55_000), (7, 55_000), (6, 30_000)].into_iter().enumerate() {
        let seed = i as u64 * 77 + 2;
        v.push(vec![Seg::Deep { seed, kinds, n }, Seg::Alpha { seed, base: 0, alpha: 256, len: 300 }, Seg::Copy(299, 58), Seg::Copy(310, 60)]);
    }
    for (i, n) in [30_000, 30_500, 31_000, 31_400, 31_700, 32_000, 32_100].into_iter().enumerate() {
        let seed = i as u64 * 91 + 5;
        v.push(vec![Seg::Deepest { seed, n }, Seg::Alpha { seed, base: 0, alpha: 256, len: 300 }, Seg::Copy(299, 58), Seg::Copy(310, 60)]);
    }
    v
}

/// Texts longer than 16 and 20 bits can count, most of them one repeat after another.
fn endless_texts() -> Vec<Vec<Seg>> {
    let noise = |seed| Seg::Alpha { seed, base: 0, alpha: 256, len: 3000 };
    vec![
        vec![Seg::Run(b'A', 70_000), noise(1)],
        vec![noise(2), Seg::Copy(1500, 1_100_000), noise(3), Seg::Copy(2900, 70)],
        vec![noise(4), Seg::Copy(61, 17_000_000), noise(5)],
    ]
}

fn describe(obs: &mut Obs, text: &[u8], d: &lzref::Decoded) {
    obs.label_if(text.is_empty(), "empty");
    obs.label_if(text.len() > 60, "longer than look-ahead");
    obs.label_if(text.len() > 2048, "longer than window");
    obs.label_if(text.len() > 1 << 20, "longer than 1 MiB");
    obs.label_if(text.len() > 1 << 24, "longer than 16 MiB");
    obs.label_if(d.rebuilds > 0, "tree rebuilt");
    obs.label_if(d.rebuilds > 1, "tree rebuilt twice or more");
    obs.label_if(d.longest_code >= 16, "code of 16+ bits");
    obs.label_if(d.longest_code > 16, "code of 17+ bits");
    obs.label_if(d.longest_code > 17, "code of 18+ bits");
    obs.label_if(d.longest_code > 18, "code of 19+ bits");
    let reps = d.tokens.iter().any(|t| matches!(t, Token::Rep { .. }));
    obs.label_if(reps, "has repeat");
    obs.label_if(d.tokens.iter().any(|t| matches!(t, Token::Rep { dist, .. } if *dist > 256)), "repeat further than 256");
    obs.label_if(d.tokens.iter().any(|t| matches!(t, Token::Rep { dist, .. } if *dist > 1024)), "repeat further than 1024");
    obs.label_if(d.tokens.iter().any(|t| matches!(t, Token::Rep { len, .. } if *len == 60)), "repeat of 60");
    obs.nontrivial_if(text.is_empty() || reps || text.len() >= 60);
}

fn roundtrip(segs: &Vec<Seg>, obs: &mut Obs) -> Result<(), String> {
    let text = text::expand(segs);
    let packed = lzhuf::encode(&text);
    let back = lzhuf::decode(&packed, text.len()).map_err(|_| format!("decompressing the compressor's output of {} bytes reports end of data", text.len()))?;
    if let Ok(d) = lzref::decode(&packed, text.len()) {
        describe(obs, &text, &d);
    }
    if back != text {
        return Err(format!("round trip differs: {}", first_diff(&text, &back)));
    }
    Ok(())
}

pub fn l01(ctx: &Ctx) {
    ctx.rule("Texts are expanded from generated segments (raw bytes, runs, copies at chosen distances, random data over small alphabets, vocabularies, Fibonacci-distributed repeats) plus an enumeration of boundary texts; non-trivial = empty, at least 60 bytes, or compressed with at least one repeat.");
    ctx.each("boundary", boundary_texts(), roundtrip);
    ctx.each("deep", deep_texts(), roundtrip);
    ctx.each("endless", endless_texts(), roundtrip);
    ctx.run("small", ctx.scale(40_000, 10), || text::text(8, 120), roundtrip);
    ctx.run("medium", ctx.scale(12_000, 10), || text::text(14, 4000), roundtrip);
    ctx.run("long", ctx.scale(480, 12), text::long_text, roundtrip);
}

fn conforming_stream(toks: &Vec<Tok>, obs: &mut Obs) -> Result<(), String> {
    let tokens = text::tokens(toks);
    let want = lzref::expand(&tokens);
    let e = lzref::encode(&tokens);
    obs.label_if(e.rebuilds > 0, "tree rebuilt");
    obs.label_if(e.rebuilds > 1, "tree rebuilt twice or more");
    obs.label_if(e.longest_code >= 16, "code of 16+ bits");
    obs.label_if(e.longest_code > 16, "code of 17+ bits");
    obs.label_if(e.longest_code > 17, "code of 18+ bits");
    obs.label_if(e.longest_code > 18, "code of 19+ bits");
    let mut at = 0;
    let (mut far, mut before, mut over, mut full) = (false, false, false, false);
    for t in &tokens {
        match *t {
            Token::Lit(_) => at += 1,
            Token::Rep { dist, len } => {
                far |= dist > 256;
                before |= dist > at;
                over |= dist < len;
                full |= dist > lzref::REACH;
                at += len;
            }
        }
    }
    obs.label_if(far, "repeat further than 256");
    obs.label_if(before, "repeat into the preset spaces");
    obs.label_if(over, "overlapping repeat");
    obs.label_if(full, "repeat further than 1988");
    obs.nontrivial_if(tokens.len() > 1 && tokens.iter().any(|t| matches!(t, Token::Rep { .. })));
    let got = lzhuf::decode(&e.bytes, want.len()).map_err(|_| format!("a conforming stream of {} tokens ({} bytes of text) is reported as ending early", tokens.len(), want.len()))?;
    if got != want {
        return Err(format!("a conforming stream decompresses to something else: {}", first_diff(&want, &got)));
    }
    Ok(())
}

pub fn l02(ctx: &Ctx) {
    ctx.rule("Token sequences (literals, in-window repeats of every length and distance, all symbols, all position codes, Fibonacci symbol statistics) are encoded by the reference encoder; non-trivial = at least two tokens of which one is a repeat.");
    let mut v: Vec<Vec<Tok>> = Vec::new();
    for d in 1..=2048u32 {
        // every distance, with enough text before it to be valid and distinguishable
        v.push(vec![Tok::Mix { seed: d as u64, n: 70 + 20 * (d % 2), alpha: 256, rep: 0, maxdist: 1 }, Tok::Rep(d, (d % 58) as u8), Tok::Lits(vec![1])]);
        if d % 8 == 0 || d > 1980 {
            v.push(vec![Tok::Mix { seed: d as u64, n: d + 100, alpha: 256, rep: 0, maxdist: 1 }, Tok::Rep(d, (d % 58) as u8), Tok::Rep(d, 57)]);
        }
    }
    for (n, dist, len) in [(40_000u32, 1u32, 0u8), (30_000, 2048, 57), (290_000, 777, 57)] {
        v.push(vec![Tok::Mix { seed: n as u64, n: 2500, alpha: 256, rep: 0, maxdist: 1 }, Tok::Again { n, dist, len }, Tok::All { start: 5 }, Tok::AllPos { low: 3, len: 9 }]);
    }
    for l in 0..58u8 {
        v.push(vec![Tok::Mix { seed: l as u64, n: 200, alpha: 256, rep: 0, maxdist: 1 }, Tok::Rep(77, l), Tok::Lits(vec![9])]);
        v.push(vec![Tok::Rep(1 + l as u32 * 30, l), Tok::Lits(vec![9]), Tok::Rep(1, l)]);
    }
    for s in (0..314u16).step_by(5) {
        v.push(vec![Tok::All { start: s }]);
        v.push(vec![Tok::AllPos { low: s as u8, len: s as u8 }, Tok::All { start: s }, Tok::AllPos { low: (s as u8).wrapping_add(1), len: 1 }]);
    }
    ctx.each("boundary", v, conforming_stream);
    ctx.run("small", ctx.scale(120_000, 10), || text::toks(10), conforming_stream);
    ctx.run("long", ctx.scale(1_200, 12), text::long_toks, conforming_stream);
}

fn parse_ours(text: &[u8]) -> Result<(Vec<u8>, lzref::Decoded), String> {
    let packed = lzhuf::encode(text);
    let d = lzref::decode(&packed, text.len())?;
    Ok((packed, d))
}

fn conforming_output(segs: &Vec<Seg>, obs: &mut Obs) -> Result<(), String> {
    let text = text::expand(segs);
    let (packed, d) = parse_ours(&text)?;
    describe(obs, &text, &d);
    if d.text != text {
        return Err(format!("an independent decoder recovers something else: {}", first_diff(&text, &d.text)));
    }
    for t in &d.tokens {
        if let Token::Rep { dist, len } = t {
            if *len > 60 || *len < 3 || *dist > lzref::WINDOW {
                return Err(format!("token out of range: {:?}", t));
            }
        }
    }
    if packed.len() != (d.bits_used + 7) / 8 {
        return Err(format!("{} bytes emitted for {} bits", packed.len(), d.bits_used));
    }
    for i in d.bits_used..packed.len() * 8 {
        if packed[i / 8] >> (7 - i % 8) & 1 == 1 {
            return Err("padding bits after the last token are not zero".into());
        }
    }
    Ok(())
}

pub fn l03(ctx: &Ctx) {
    ctx.rule("Texts as for L01; the compressor's output is decoded by the reference decoder; non-trivial = empty, at least 60 bytes, or at least one repeat.");
    ctx.each("boundary", boundary_texts(), conforming_output);
    ctx.each("deep", deep_texts(), conforming_output);
    ctx.run("small", ctx.scale(30_000, 10), || text::text(8, 120), conforming_output);
    ctx.run("medium", ctx.scale(9_000, 10), || text::text(14, 4000), conforming_output);
    ctx.run("long", ctx.scale(420, 12), text::long_text, conforming_output);
}

fn greedy(segs: &Vec<Seg>, obs: &mut Obs) -> Result<(), String> {
    let text = text::expand(segs);
    let (_, d) = parse_ours(&text)?;
    describe(obs, &text, &d);
    obs.nontrivial = d.tokens.iter().any(|t| matches!(t, Token::Rep { .. })) && d.tokens.iter().any(|t| matches!(t, Token::Lit(_)));
    // text preceded by spaces; a full window of them
    let mut t = vec![b' '; lzref::REACH];
    t.extend(&text);
    // last positions of each byte value, as chains
    let mut head = vec![usize::MAX; 256];
    let mut prev = vec![usize::MAX; t.len()];
    let mut indexed = 0;
    let mut at = lzref::REACH;
    for tok in &d.tokens {
        while indexed < at {
            let b = t[indexed] as usize;
            prev[indexed] = head[b];
            head[b] = indexed;
            indexed += 1;
        }
        let limit = lzref::MAXLEN.min(t.len() - at);
        let mut best = 0;
        let mut p = head[t[at] as usize];
        while p != usize::MAX && at - p <= lzref::REACH && best < limit {
            if t[p + best] == t[at + best] {
                let l = (0..limit).take_while(|&i| t[p + i] == t[at + i]).count();
                best = best.max(l);
            }
            p = prev[p];
        }
        let taken = match tok {
            Token::Lit(_) => 1,
            Token::Rep { len, .. } => *len,
        };
        let want = if best >= 3 { best } else { 1 };
        if taken != want {
            return Err(format!("at byte {} the compressor covers {} bytes, but the longest repeat available covers {}", at - lzref::REACH, taken, want));
        }
        at += taken;
    }
    Ok(())
}

pub fn l04(ctx: &Ctx) {
    ctx.rule("Texts as for L01 up to some tens of KiB; each token of the output (as read by the reference decoder) is compared with a brute-force longest match; non-trivial = the output has both literals and repeats.");
    ctx.each("boundary", boundary_texts(), greedy);
    ctx.run("small", ctx.scale(30_000, 10), || text::text(8, 120), greedy);
    ctx.run("medium", ctx.scale(9_000, 10), || text::text(14, 4000), greedy);
    ctx.run("long", ctx.scale(160, 12), text::long_text, greedy);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arbitrary {
    data: Vec<u8>,
    size: u32,
}

fn total(c: &Arbitrary, obs: &mut Obs) -> Result<(), String> {
    let r = lzhuf::decode(&c.data, c.size as usize);
    obs.label(if r.is_ok() { "complete" } else { "end of data" });
    obs.nontrivial_if(c.data.len() >= 2 && c.size > 0);
    match r {
        Ok(v) if v.len() != c.size as usize => Err(format!("{} bytes returned, {} requested", v.len(), c.size)),
        _ => Ok(()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cut {
    segs: Vec<Seg>,
    tokens: Vec<Tok>,
    /// Cut points are these fractions of the stream and of the text.
    at: Vec<u16>,
    ours: bool,
}

fn cut(c: &Cut, obs: &mut Obs) -> Result<(), String> {
    let (text, packed) = if c.ours {
        let t = text::expand(&c.segs);
        let p = lzhuf::encode(&t);
        (t, p)
    } else {
        let tokens = text::tokens(&c.tokens);
        (lzref::expand(&tokens), lzref::encode(&tokens).bytes)
    };
    obs.nontrivial_if(text.len() > 2);
    if text.is_empty() {
        return Ok(());
    }
    let n = packed.len();
    let mut cuts: Vec<usize> = c.at.iter().map(|&a| a as usize * n / 65536).chain([n - 1, n.saturating_sub(2), 0]).collect();
    if n < 40 {
        cuts = (0..n).collect();
    }
    for k in cuts {
        if lzhuf::decode(&packed[..k], text.len()).is_ok() {
            return Err(format!("stream cut to {} of {} bytes still yields {} bytes", k, n, text.len()));
        }
        obs.add("truncations", 1);
    }
    let m = text.len();
    let mut sizes: Vec<usize> = c.at.iter().map(|&a| a as usize * m / 65536).chain([m - 1, 0, 1, m]).collect();
    if m < 40 {
        sizes = (0..=m).collect();
    }
    for k in sizes {
        match lzhuf::decode(&packed, k) {
            Ok(v) if v == text[..k] => {}
            Ok(_) => return Err(format!("requesting {} of {} bytes does not yield the prefix", k, m)),
            Err(_) => return Err(format!("requesting {} of {} bytes reports end of data", k, m)),
        }
        obs.add("prefix requests", 1);
    }
    Ok(())
}

pub fn l05(ctx: &Ctx) {
    ctx.rule("Random and structured byte strings with random requested lengths; valid streams (ours and the reference encoder's) cut at generated points (every point when short) and decoded to generated shorter lengths. Non-trivial = at least 2 bytes of input and a positive length / more than 2 bytes of text.");
    let data = || {
        prop_oneof![
            3 => prop::collection::vec(any::<u8>(), 0..300),
            2 => prop::collection::vec(prop_oneof![Just(0u8), Just(0xffu8), any::<u8>()], 0..300),
            2 => (text::toks(6), prop::collection::vec((any::<u16>(), any::<u8>()), 0..4)).prop_map(|(t, m)| {
                let mut b = lzref::encode(&text::tokens(&t)).bytes;
                for (i, x) in m {
                    if !b.is_empty() {
                        let i = i as usize % b.len();
                        b[i] ^= x;
                    }
                }
                b
            }),
        ]
    };
    let size = || prop_oneof![3 => 0u32..400, 2 => 0u32..6000, 1 => 0u32..200_000];
    ctx.run("arbitrary", ctx.scale(240_000, 10), || (data(), size()).prop_map(|(data, size)| Arbitrary { data, size }), total);
    let cuts = || {
        (text::text(6, 200), text::toks(5), prop::collection::vec(any::<u16>(), 0..8), any::<bool>()).prop_map(|(segs, tokens, at, ours)| Cut { segs, tokens, at, ours })
    };
    ctx.run("cut", ctx.scale(20_000, 10), cuts, cut);
    let long = || {
        (text::long_text(), text::long_toks(), prop::collection::vec(any::<u16>(), 0..3), any::<bool>()).prop_map(|(segs, tokens, at, ours)| Cut { segs, tokens, at, ours })
    };
    ctx.run("cut-long", ctx.scale(80, 12), long, cut);
    let bulk = || (any::<u64>(), 40_000u32..120_000, prop_oneof![Just(0u8), Just(0x1fu8), Just(0xffu8)], size()).prop_map(|(seed, n, mask, size)| (seed, n, mask, size * 4));
    ctx.run("arbitrary-long", ctx.scale(160, 12), bulk, |&(seed, n, mask, size): &(u64, u32, u8, u32), obs: &mut Obs| {
        let mut r = Sm(seed);
        let data: Vec<u8> = (0..n).map(|_| (r.next() as u8) & !mask).collect();
        total(&Arbitrary { data, size: size.max(1_000) }, obs)
    });
}

pub fn crc_ref(data: &[u8]) -> u16 {
    let mut crc = 0u16;
    for &b in data {
        for i in (0..8).rev() {
            let top = (crc >> 15) as u8 ^ (b >> i & 1);
            crc <<= 1;
            if top == 1 {
                crc ^= 0x1021;
            }
        }
    }
    crc
}

pub fn l06(ctx: &Ctx) {
    ctx.rule("Every (16-bit state, byte) transition, reached through a two-byte prefix (all 3-byte strings), and random strings up to 70000 bytes; non-trivial = at least 2 bytes.");
    if ctx.replay.is_none() {
        // all 3-byte strings = all 65536 states x 256 bytes (two bytes from state 0 reach every state)
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|s| {
            for w in 0..8u32 {
                let bad = &bad;
                s.spawn(move || {
                    for hi in (w * 32)..(w * 32 + 32) {
                        for lo in 0..65536u32 {
                            let d = [hi as u8, (lo >> 8) as u8, lo as u8];
                            match guarded(|| crc16::crc16(&d)) {
                                Ok(v) if v == crc_ref(&d) => {}
                                _ => {
                                    *bad.lock().unwrap() = Some(d);
                                    return;
                                }
                            }
                        }
                    }
                });
            }
        });
        if let Some(d) = bad.into_inner().unwrap() {
            ctx.violate("random", serde_json::to_value(d.to_vec()).unwrap(), "CRC of a 3-byte string differs from CRC-16/XMODEM");
            return;
        }
        ctx.exhaustive("all 3-byte strings", 1 << 24, 1 << 24);
    }
    let strings = || {
        prop_oneof![
            3 => prop::collection::vec(any::<u8>(), 0..40),
            2 => prop::collection::vec(any::<u8>(), 0..2000),
            1 => (any::<u64>(), 60_000usize..70_000).prop_map(|(s, n)| { let mut r = Sm(s); (0..n).map(|_| r.next() as u8).collect::<Vec<u8>>() }),
        ]
    };
    ctx.run("random", ctx.scale(6_000, 10), strings, |d: &Vec<u8>, obs: &mut Obs| {
        obs.nontrivial_if(d.len() >= 2);
        obs.label_if(d.len() > 65535, "longer than 65535");
        let (got, want) = (crc16::crc16(d), crc_ref(d));
        if got != want {
            return Err(format!("CRC {:04x}, CRC-16/XMODEM is {:04x} over {}", got, want, hex(d)));
        }
        Ok(())
    });
}
