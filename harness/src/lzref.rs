//! Independent reference for the LZHUF format (Yoshizaki's LZHUF as used by FBB: 2048-byte
//! window). Written from the format, not from the code under test: the code tree is a list of
//! records, position codes are derived canonically, bits are kept one per element.

pub const WINDOW: usize = 2048;
pub const MAXLEN: usize = 60;
pub const MINLEN: usize = 3;
/// A repeat may start at most this far back (window minus look-ahead).
pub const REACH: usize = WINDOW - MAXLEN;
const SYMBOLS: usize = 256 + MAXLEN - MINLEN + 1; // 314
const LIMIT: u32 = 0x8000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Token {
    Lit(u8),
    /// Copy `len` bytes starting `dist` back.
    Rep { dist: usize, len: usize },
}

#[derive(Clone, Copy)]
enum Kind {
    Leaf(usize),
    /// Children are the nodes `first` and `first + 1`.
    Pair(usize),
}

#[derive(Clone, Copy)]
struct Node {
    weight: u32,
    kind: Kind,
}

/// Adaptive Huffman code: nodes in non-decreasing weight order, root last.
pub struct Code {
    nodes: Vec<Node>,
    parent: Vec<usize>,
    leaf: Vec<usize>,
    pub rebuilds: usize,
}

impl Code {
    pub fn new() -> Self {
        let mut nodes: Vec<Node> = (0..SYMBOLS).map(|s| Node { weight: 1, kind: Kind::Leaf(s) }).collect();
        let mut i = 0;
        while nodes.len() < 2 * SYMBOLS - 1 {
            nodes.push(Node { weight: nodes[i].weight + nodes[i + 1].weight, kind: Kind::Pair(i) });
            i += 2;
        }
        let mut c = Code { nodes, parent: vec![0; 2 * SYMBOLS - 1], leaf: vec![0; SYMBOLS], rebuilds: 0 };
        c.relink();
        c
    }

    fn relink(&mut self) {
        for at in 0..self.nodes.len() {
            self.attach(at)
        }
    }

    fn attach(&mut self, at: usize) {
        match self.nodes[at].kind {
            Kind::Leaf(s) => self.leaf[s] = at,
            Kind::Pair(f) => {
                self.parent[f] = at;
                self.parent[f + 1] = at;
            }
        }
    }

    fn root(&self) -> usize {
        self.nodes.len() - 1
    }

    fn rebuild(&mut self) {
        self.rebuilds += 1;
        let total = self.nodes.len();
        let mut list: Vec<Node> = self
            .nodes
            .iter()
            .filter(|n| matches!(n.kind, Kind::Leaf(_)))
            .map(|n| Node { weight: (n.weight + 1) / 2, kind: n.kind })
            .collect();
        let mut i = 0;
        while list.len() < total {
            let weight = list[i].weight + list[i + 1].weight;
            // behind every node that is not heavier
            let at = list.iter().rposition(|n| n.weight <= weight).unwrap() + 1;
            list.insert(at, Node { weight, kind: Kind::Pair(i) });
            i += 2;
        }
        self.nodes = list;
        self.relink();
    }

    pub fn path(&self, symbol: usize) -> Vec<bool> {
        let mut bits = Vec::new();
        let mut at = self.leaf[symbol];
        while at != self.root() {
            bits.push(at % 2 == 1);
            at = self.parent[at];
        }
        bits.reverse();
        bits
    }

    pub fn bump(&mut self, symbol: usize) {
        if self.nodes[self.root()].weight == LIMIT {
            self.rebuild();
        }
        let mut at = self.leaf[symbol];
        loop {
            let weight = self.nodes[at].weight + 1;
            self.nodes[at].weight = weight;
            // last node lighter than the new weight
            let mut to = at;
            while to < self.root() && self.nodes[to + 1].weight < weight {
                to += 1;
            }
            if to != at {
                self.nodes.swap(at, to);
                self.attach(at);
                self.attach(to);
                at = to;
            }
            if at == self.root() {
                break;
            }
            at = self.parent[at];
        }
    }

    fn read(&self, bits: &mut impl FnMut() -> Option<bool>) -> Option<usize> {
        let mut at = self.root();
        loop {
            match self.nodes[at].kind {
                Kind::Leaf(s) => return Some(s),
                Kind::Pair(f) => at = f + usize::from(bits()?),
            }
        }
    }
}

/// Number of bits of the code for the upper six position bits.
fn pos_len(upper: usize) -> usize {
    match upper {
        0 => 3,
        1..=3 => 4,
        4..=11 => 5,
        12..=23 => 6,
        24..=47 => 7,
        _ => 8,
    }
}

/// Canonical code of the upper position bits, left aligned in 8 bits.
fn pos_codes() -> Vec<(usize, usize)> {
    let mut next = 0;
    (0..64)
        .map(|u| {
            let l = pos_len(u);
            let code = next;
            next += 1 << (8 - l);
            (code >> (8 - l), l)
        })
        .collect()
}

fn push(bits: &mut Vec<bool>, value: usize, n: usize) {
    for i in (0..n).rev() {
        bits.push(value >> i & 1 == 1)
    }
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub rebuilds: usize,
    pub longest_code: usize,
    /// A code of exactly 16 bits began on a byte boundary, or a longer one occurred.
    pub wide_codes: usize,
}

pub fn encode(tokens: &[Token]) -> Encoded {
    let mut code = Code::new();
    let mut bits = Vec::new();
    let positions = pos_codes();
    let (mut longest, mut wide) = (0, 0);
    for t in tokens {
        let symbol = match *t {
            Token::Lit(b) => b as usize,
            Token::Rep { len, .. } => 256 + len - MINLEN,
        };
        let path = code.path(symbol);
        longest = longest.max(path.len());
        wide += usize::from(path.len() >= 16);
        bits.extend(path);
        code.bump(symbol);
        if let Token::Rep { dist, .. } = *t {
            let p = dist - 1;
            let (c, l) = positions[p >> 6];
            push(&mut bits, c, l);
            push(&mut bits, p & 63, 6);
        }
    }
    let bytes = bits
        .chunks(8)
        .map(|c| c.iter().enumerate().fold(0u8, |a, (i, &b)| a | (u8::from(b) << (7 - i))))
        .collect();
    Encoded { bytes, rebuilds: code.rebuilds, longest_code: longest, wide_codes: wide }
}

/// The text a token sequence stands for.
pub fn expand(tokens: &[Token]) -> Vec<u8> {
    let mut text = vec![b' '; REACH];
    for t in tokens {
        match *t {
            Token::Lit(b) => text.push(b),
            Token::Rep { dist, len } => {
                for _ in 0..len {
                    text.push(text[text.len() - dist]);
                }
            }
        }
    }
    text.split_off(REACH)
}

pub struct Decoded {
    pub tokens: Vec<Token>,
    pub text: Vec<u8>,
    pub bits_used: usize,
    pub rebuilds: usize,
    pub longest_code: usize,
}

/// Decodes whole tokens until `size` bytes of text exist; None if the data ends first or a
/// repeat refers outside the text available to it.
pub fn decode(data: &[u8], size: usize) -> Result<Decoded, String> {
    let mut at = 0usize;
    let total = data.len() * 8;
    let mut code = Code::new();
    let positions = pos_codes();
    let mut tokens = Vec::new();
    let mut text = vec![b' '; REACH];
    let mut longest = 0;
    while text.len() - REACH < size {
        let mut bit = || {
            if at == total {
                return None;
            }
            let b = data[at / 8] >> (7 - at % 8) & 1 == 1;
            at += 1;
            Some(b)
        };
        let done = text.len() - REACH;
        let eof = || format!("reference decoder: data ends after {} of {} bytes", done, size);
        let symbol = code.read(&mut bit).ok_or_else(eof)?;
        longest = longest.max(code.path(symbol).len());
        code.bump(symbol);
        if symbol < 256 {
            tokens.push(Token::Lit(symbol as u8));
            text.push(symbol as u8);
        } else {
            let len = symbol - 256 + MINLEN;
            let (mut value, mut n) = (0, 0);
            let upper = loop {
                value = value * 2 + usize::from(bit().ok_or_else(eof)?);
                n += 1;
                if let Some(u) = positions.iter().position(|&(c, l)| l == n && c == value) {
                    break u;
                }
                if n > 8 {
                    return Err("reference decoder: bad position code".into());
                }
            };
            let mut lower = 0;
            for _ in 0..6 {
                lower = lower * 2 + usize::from(bit().ok_or_else(eof)?);
            }
            let dist = (upper << 6 | lower) + 1;
            if dist > WINDOW || dist > text.len() {
                return Err(format!("reference decoder: repeat reaches {} back after {} bytes", dist, done));
            }
            tokens.push(Token::Rep { dist, len });
            for _ in 0..len {
                text.push(text[text.len() - dist]);
            }
        }
    }
    Ok(Decoded { tokens, text: text.split_off(REACH), bits_used: at, rebuilds: code.rebuilds, longest_code: longest })
}
