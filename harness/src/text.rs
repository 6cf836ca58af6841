//! Generators of message texts and token sequences.
use crate::engine::Sm;
use crate::lzref::{Token, MAXLEN, REACH, WINDOW};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seg {
    /// Literal bytes.
    Raw(Vec<u8>),
    /// One byte repeated.
    Run(u8, u32),
    /// Earlier output, `dist` back, `len` bytes (spaces before the start).
    Copy(u32, u32),
    /// `len` bytes over an alphabet of `alpha` symbols starting at `base`.
    Alpha { seed: u64, base: u8, alpha: u16, len: u32 },
    /// Pieces of earlier output whose lengths have Fibonacci-like frequencies: few lengths
    /// dominate, so the rare symbols get very long codes. `n` pieces.
    Skew { seed: u64, kinds: u8, n: u32, first: u8 },
    /// Like Skew, but tuned so that unused symbols get the longest codes the format allows: the
    /// weights start level with the unused symbols together, and no fresh material is mixed in.
    Deep { seed: u64, kinds: u8, n: u32 },
    /// Like Deep, with the weights that give the longest codes (18 bits) just before the tree is
    /// rebuilt, met as closely as possible.
    Deepest { seed: u64, n: u32 },
    /// Words from a small vocabulary.
    Words { seed: u64, vocab: u16, n: u32 },
}

pub fn expand(segs: &[Seg]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let back = |out: &Vec<u8>, d: usize| if d == 0 || d > out.len() { b' ' } else { out[out.len() - d] };
    for s in segs {
        match s {
            Seg::Raw(v) => out.extend(v),
            Seg::Run(b, n) => out.extend(std::iter::repeat(*b).take(*n as usize)),
            Seg::Copy(d, n) => {
                for _ in 0..*n {
                    let b = back(&out, *d as usize);
                    out.push(b);
                }
            }
            Seg::Alpha { seed, base, alpha, len } => {
                let mut r = Sm(*seed);
                for _ in 0..*len {
                    out.push(base.wrapping_add(r.below((*alpha).max(1) as u64) as u8));
                }
            }
            Seg::Skew { seed, kinds, n, first } => {
                let mut r = Sm(*seed);
                let w = fib_weights((*kinds).max(1) as usize);
                let total: u64 = w.iter().sum();
                for i in 0..*n {
                    if out.len() < 1200 || i % 400 == 399 {
                        // fresh material so that pieces stay distinguishable
                        for _ in 0..if out.len() < 1200 { 1200 } else { 24 } {
                            out.push(r.next() as u8);
                        }
                    }
                    let mut pick = r.below(total);
                    let mut kind = 0;
                    while pick >= w[kind] {
                        pick -= w[kind];
                        kind += 1;
                    }
                    // heaviest kind is the shortest piece
                    let len = *first as usize % 40 + 3 + (w.len() - 1 - kind);
                    let d = len as u64 + r.below(900);
                    for _ in 0..len {
                        let b = back(&out, d as usize);
                        out.push(b);
                    }
                }
            }
            Seg::Deep { seed, n, .. } | Seg::Deepest { seed, n } => {
                let mut r = Sm(*seed);
                // few different bytes, so that most literals stay unused
                let alpha = 12 + r.below(30);
                let (first, alpha) = if matches!(s, Seg::Deepest { .. }) { (64, 90) } else { (160, alpha) };
                for _ in 0..first {
                    out.push(0x30 + r.below(alpha) as u8);
                }
                let (w, exact) = match s {
                    Seg::Deep { kinds, .. } => (fib_weights((*kinds).max(1) as usize), false),
                    _ => (chain_weights(9, 70), true),
                };
                let total: u64 = w.iter().sum();
                let mut deck = Deck::new(w.clone());
                let mut used: Vec<bool> = Vec::new();
                // bytes that would lengthen the repeat just written
                let mut longer = [false; 256];
                for _ in 0..*n {
                    let mut pick = r.below(total);
                    let mut kind = 0;
                    while pick >= w[kind] {
                        pick -= w[kind];
                        kind += 1;
                    }
                    if exact {
                        kind = deck.next();
                    }
                    let len = 3 + (w.len() - 1 - kind);
                    let span = out.len().min(1900) - len;
                    let mut from = out.len() - len - r.below(span as u64) as usize;
                    used.resize(out.len(), false);
                    for t in 0..if exact { 200 } else { 60 } {
                        let fits = !longer[out[from] as usize];
                        if fits && (!exact || t > 150 || !used[from..from + len].contains(&true)) {
                            break;
                        }
                        // what was copied least is the oldest text: copying that keeps it from dying out
                        let back = if exact && t < 120 { span as u64 - r.below(span as u64 / 4 + 1) } else { r.below(span as u64) };
                        from = out.len() - len - back as usize;
                    }
                    used[from..from + len].fill(true);
                    let piece = out[from..from + len].to_vec();
                    longer = [false; 256];
                    for p in out.len().saturating_sub(REACH)..out.len() - len {
                        if out[p] == piece[0] && out[p..p + len] == piece[..] {
                            longer[out[p + len] as usize] = true;
                        }
                    }
                    out.extend(piece);
                }
            }
            Seg::Words { seed, vocab, n } => {
                let mut r = Sm(*seed);
                let mut v = Sm(*seed ^ 0x5151);
                let words: Vec<Vec<u8>> = (0..(*vocab).max(1))
                    .map(|_| {
                        let l = 1 + v.below(9);
                        (0..l).map(|_| b'A' + v.below(26) as u8).collect()
                    })
                    .collect();
                for _ in 0..*n {
                    out.extend(&words[r.below(words.len() as u64) as usize]);
                    out.push(if r.below(11) == 0 { b'\n' } else { b' ' });
                }
            }
        }
    }
    out
}

/// Frequencies of `levels` symbols that give all other symbols, used not at all, the longest codes:
/// each is just large enough to be joined only after everything lighter. `slack` is how often the
/// others are used all the same.
pub fn chain_weights(levels: usize, slack: u64) -> Vec<u64> {
    let unused = 314 - levels as u64;
    let unused = unused + slack;
    let mut w = vec![unused * 3 / 5, unused + 1];
    while w.len() < levels {
        let sum: u64 = w[..w.len() - 1].iter().sum();
        w.push(unused + sum + 1);
    }
    w.truncate(levels);
    w
}

/// Draws kinds so that their numbers follow the weights as closely as possible at any time.
struct Deck {
    weights: Vec<u64>,
    drawn: Vec<u64>,
    total: u64,
    count: u64,
}

impl Deck {
    fn new(weights: Vec<u64>) -> Self {
        Deck { drawn: vec![0; weights.len()], total: weights.iter().sum(), weights, count: 0 }
    }
    fn next(&mut self) -> usize {
        self.count += 1;
        let lag = |k: usize| (self.weights[k] * self.count) as i64 - (self.drawn[k] * self.total) as i64;
        let kind = (0..self.weights.len()).max_by_key(|&k| lag(k)).unwrap();
        self.drawn[kind] += 1;
        kind
    }
}

pub fn fib_weights(n: usize) -> Vec<u64> {
    let mut w = vec![1u64, 1];
    while w.len() < n {
        let l = w.len();
        w.push(w[l - 1] + w[l - 2]);
    }
    w.truncate(n.max(1));
    w
}

/// Distances around every boundary the format has.
pub fn dist() -> impl Strategy<Value = u32> {
    prop_oneof![
        4 => 1u32..70,
        3 => 1u32..2100,
        2 => prop::sample::select(vec![1, 2, 3, 59, 60, 61, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 767, 768, 1023, 1024, 1025, 1535, 1536, 1537, 1927, 1928, 1986, 1987, 1988, 1989, 2046, 2047, 2048, 2049]),
    ]
}

pub fn seg(max: u32) -> impl Strategy<Value = Seg> {
    let m = max.max(4);
    prop_oneof![
        3 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Seg::Raw),
        1 => prop::collection::vec(any::<u8>(), 1..4).prop_map(Seg::Raw),
        1 => "[ -~]{0,60}".prop_map(|s| Seg::Raw(s.into_bytes())),
        2 => (prop_oneof![Just(b' '), Just(0u8), Just(255u8), Just(b'M'), any::<u8>()], 0..m.min(400)).prop_map(|(b, n)| Seg::Run(b, n)),
        5 => (dist(), 0u32..70).prop_map(|(d, n)| Seg::Copy(d, n)),
        1 => (dist(), 0u32..m.min(600)).prop_map(|(d, n)| Seg::Copy(d, n)),
        2 => (any::<u64>(), any::<u8>(), prop_oneof![1u16..6, 1u16..257], 0..m).prop_map(|(seed, base, alpha, len)| Seg::Alpha { seed, base, alpha, len }),
        1 => (any::<u64>(), 2u16..200, 0..(m / 5)).prop_map(|(seed, vocab, n)| Seg::Words { seed, vocab, n }),
    ]
}

/// Texts of small to medium size.
pub fn text(segs: usize, max: u32) -> impl Strategy<Value = Vec<Seg>> {
    prop::collection::vec(seg(max), 0..segs)
}

/// Texts long enough to rebuild the adaptive code at least once, or with code lengths near and
/// beyond 16 bits.
pub fn long_text() -> impl Strategy<Value = Vec<Seg>> {
    let bulk = prop_oneof![
        2 => (any::<u64>(), any::<u8>(), 60u16..257, 33_000u32..80_000).prop_map(|(seed, base, alpha, len)| Seg::Alpha { seed, base, alpha, len }),
        1 => (any::<u64>(), any::<u8>(), 2u16..60, 60_000u32..120_000).prop_map(|(seed, base, alpha, len)| Seg::Alpha { seed, base, alpha, len }),
        1 => (any::<u64>(), 2u16..3000, 8_000u32..20_000).prop_map(|(seed, vocab, n)| Seg::Words { seed, vocab, n }),
        3 => (any::<u64>(), 6u8..10, prop_oneof![22_000u32..31_900, 50_000u32..56_000]).prop_map(|(seed, kinds, n)| Seg::Deep { seed, kinds, n }),
        1 => (any::<u64>(), 7u8..17, 4_000u32..14_000, any::<u8>()).prop_map(|(seed, kinds, n, first)| Seg::Skew { seed, kinds, n, first }),
        1 => (any::<u64>(), prop_oneof![30_500u32..32_150, 20_000u32..60_000]).prop_map(|(seed, n)| Seg::Deepest { seed, n }),
    ];
    (text(4, 300), bulk, prop::collection::vec(prop_oneof![2 => seg(3000).boxed(), 1 => any::<u64>().prop_map(|seed| Seg::Alpha { seed, base: 0, alpha: 256, len: 600 }).boxed()], 1..5)).prop_map(|(mut a, b, c)| {
        a.push(b);
        a.extend(c);
        a
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tok {
    Lits(Vec<u8>),
    /// Distance is reduced into the window available at that point.
    Rep(u32, u8),
    /// `n` tokens: literals and repeats of every kind.
    Mix { seed: u64, n: u32, alpha: u16, rep: u8, maxdist: u32 },
    /// `n` symbols with Fibonacci frequencies over `kinds` symbols starting at symbol `base`.
    Fib { seed: u64, kinds: u8, n: u32, base: u16 },
    /// `levels` symbols from `base` on with the frequencies that give the others the longest codes,
    /// `n` in all.
    Chain { levels: u8, n: u32, base: u16 },
    /// Every symbol of the alphabet once, in a rotated order.
    All { start: u16 },
    /// The same repeat over and over.
    Again { n: u32, dist: u32, len: u8 },
    /// A repeat at every upper-position code, lower bits `low`.
    AllPos { low: u8, len: u8 },
}

pub fn tokens(toks: &[Tok]) -> Vec<Token> {
    let mut out = Vec::new();
    let mut text = 0usize;
    let clampd = |d: usize, text: usize| {
        let limit = WINDOW.min(text + REACH);
        (d.max(1) - 1) % limit + 1
    };
    fn sym(out: &mut Vec<Token>, text: &mut usize, s: usize, d: usize) {
        if s < 256 {
            out.push(Token::Lit(s as u8));
            *text += 1;
        } else {
            let limit = WINDOW.min(*text + REACH);
            let len = s - 256 + 3;
            out.push(Token::Rep { dist: (d.max(1) - 1) % limit + 1, len });
            *text += len;
        }
    }
    for t in toks {
        match t {
            Tok::Lits(v) => {
                for &b in v {
                    sym(&mut out, &mut text, b as usize, 1)
                }
            }
            Tok::Rep(d, l) => {
                let len = 3 + *l as usize % (MAXLEN - 2);
                out.push(Token::Rep { dist: clampd(*d as usize, text), len });
                text += len;
            }
            Tok::Mix { seed, n, alpha, rep, maxdist } => {
                let mut r = Sm(*seed);
                for _ in 0..*n {
                    if (r.below(256) as u8) < *rep {
                        let s = 256 + r.below(58) as usize;
                        sym(&mut out, &mut text, s, 1 + r.below((*maxdist).max(1) as u64) as usize)
                    } else {
                        sym(&mut out, &mut text, r.below((*alpha).clamp(1, 256) as u64) as usize, 1)
                    }
                }
            }
            Tok::Fib { seed, kinds, n, base } => {
                let mut r = Sm(*seed);
                let w = fib_weights(*kinds as usize);
                let total: u64 = w.iter().sum();
                for _ in 0..*n {
                    let mut pick = r.below(total);
                    let mut kind = 0;
                    while pick >= w[kind] {
                        pick -= w[kind];
                        kind += 1;
                    }
                    sym(&mut out, &mut text, (*base as usize + kind) % 314, 1 + r.below(2048) as usize);
                }
            }
            Tok::Chain { levels, n, base } => {
                let mut deck = Deck::new(chain_weights((*levels as usize).clamp(2, 12), 2));
                for i in 0..*n as usize {
                    sym(&mut out, &mut text, (*base as usize + deck.next()) % 314, 1 + i * 37 % 2048);
                }
            }
            Tok::All { start } => {
                for i in 0..314 {
                    sym(&mut out, &mut text, (*start as usize + i * 7) % 314, 1 + (i * 37) % 2048)
                }
            }
            Tok::Again { n, dist, len } => {
                let len = 3 + *len as usize % (MAXLEN - 2);
                for _ in 0..*n {
                    out.push(Token::Rep { dist: clampd(*dist as usize, text), len });
                    text += len;
                }
            }
            Tok::AllPos { low, len } => {
                for u in 0..32usize {
                    let d = (u << 6 | (*low as usize & 63)) + 1;
                    let len = 3 + *len as usize % (MAXLEN - 2);
                    out.push(Token::Rep { dist: clampd(d, text), len });
                    text += len;
                }
            }
        }
    }
    out
}

pub fn tok() -> impl Strategy<Value = Tok> {
    prop_oneof![
        4 => prop::collection::vec(any::<u8>(), 0..12).prop_map(Tok::Lits),
        4 => (dist(), any::<u8>()).prop_map(|(d, l)| Tok::Rep(d, l)),
        2 => (any::<u64>(), 0u32..600, 1u16..257, any::<u8>(), prop_oneof![1u32..300, 1u32..2049]).prop_map(|(seed, n, alpha, rep, maxdist)| Tok::Mix { seed, n, alpha, rep, maxdist }),
        1 => (any::<u64>(), 2u8..20, 0u32..800, 0u16..314).prop_map(|(seed, kinds, n, base)| Tok::Fib { seed, kinds, n, base }),
        1 => (0u16..314).prop_map(|start| Tok::All { start }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(low, len)| Tok::AllPos { low, len }),
    ]
}

pub fn toks(n: usize) -> impl Strategy<Value = Vec<Tok>> {
    prop::collection::vec(tok(), 0..n)
}

pub fn long_toks() -> impl Strategy<Value = Vec<Tok>> {
    let bulk = prop_oneof![
        2 => (any::<u64>(), 33_000u32..70_000, 1u16..257, any::<u8>(), 1u32..2049).prop_map(|(seed, n, alpha, rep, maxdist)| Tok::Mix { seed, n, alpha, rep, maxdist }),
        3 => (any::<u64>(), 6u8..20, 10_000u32..70_000, 0u16..314).prop_map(|(seed, kinds, n, base)| Tok::Fib { seed, kinds, n, base }),
        1 => (8u8..11, 22_000u32..32_454, 0u16..314).prop_map(|(levels, n, base)| Tok::Chain { levels, n, base }),
    ];
    (toks(4), bulk, toks(6), (0u16..314).prop_map(|start| Tok::All { start }), toks(6)).prop_map(|(mut a, b, c, d, e)| {
        a.push(b);
        a.extend(c);
        a.push(d);
        a.extend(e);
        a
    })
}
