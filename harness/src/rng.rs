//! A small deterministic generator: every choice derives from (property, seed, shard-independent case number).

use std::sync::OnceLock;

/// Literals found in the code under test.
struct Dict {
    /// In the order of the sources; each with the first place it's at.
    words: Vec<String>,
    short: Vec<usize>,
    names: Vec<usize>,
    sizes: Vec<usize>,
}

fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let mut d = Dict { words: Vec::new(), short: Vec::new(), names: Vec::new(), sizes: Vec::new() };
        let mut seen = std::collections::HashSet::new();
        for l in include_str!("dict.txt").lines() {
            if let Some(h) = l.strip_prefix("w ") {
                let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                let w = String::from_utf8(b).unwrap();
                if seen.insert(w.clone()) {
                    if w.len() <= 10 {
                        d.short.push(d.words.len());
                    }
                    if is_name(&w) {
                        d.names.push(d.words.len());
                    }
                }
                d.words.push(w);
            } else if let Some(n) = l.strip_prefix("n ") {
                d.sizes.push(n.parse().unwrap());
            }
        }
        d
    })
}

fn is_name(w: &str) -> bool {
    (w.as_bytes()[0].is_ascii_alphabetic() || w.as_bytes()[0] == b'_')
        && w.bytes().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-' | b'.'))
        && !w.to_lowercase().starts_with("xml")
}

#[derive(Clone)]
pub struct Rng(u64, usize);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), usize::MAX)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// Inclusive.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.below(i + 1);
            s.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.u64(), usize::MAX)
    }

    /// Text which the code under test mentions, often next to the previous one.
    pub fn word(&mut self) -> String {
        let d = dict();
        if d.words.is_empty() {
            return String::new();
        }
        self.1 = if self.1 < d.words.len() && self.chance(50) {
            (self.1 + self.below(7)).saturating_sub(3).min(d.words.len() - 1)
        } else if self.chance(65) && !d.short.is_empty() {
            *self.pick(&d.short)
        } else {
            self.below(d.words.len())
        };
        d.words[self.1].clone()
    }

    /// A name the code under test mentions, or one that means something elsewhere.
    pub fn name_word(&mut self) -> String {
        const KNOWN: &[&str] = &[
            "nil", "type", "id", "lang", "space", "base", "default", "schemaLocation", "noNamespaceSchemaLocation", "href",
            "include", "value", "text", "content", "item", "name", "key", "version", "encoding", "null", "class", "ref",
            "length", "size", "count", "mustUnderstand", "actor", "Fault", "Body", "self", "crate",
        ];
        let d = dict();
        if self.chance(50) && !d.names.is_empty() {
            self.1 = *self.pick(&d.names);
            return d.words[self.1].clone();
        }
        (*self.pick(KNOWN)).to_owned()
    }

    /// A size at or next to one the code under test mentions, if small enough.
    pub fn size(&mut self, max: usize) -> Option<usize> {
        const ROUND: &[usize] = &[16, 32, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65535, 65536];
        let d = dict();
        let n = if self.chance(50) && !d.sizes.is_empty() { *self.pick(&d.sizes) } else { *self.pick(ROUND) };
        let n = n + self.below(3) - 1 + if self.chance(20) { n } else { 0 };
        (n <= max).then_some(n)
    }

    /// A character XML can represent.
    pub fn xml_char(&mut self) -> char {
        const SPECIAL: &[char] = &[
            '<', '>', '&', '"', '\'', ']', '[', ';', '#', '!', '-', '?', '/', '=', '{', '}', '%', '\\',
        ];
        const WS: &[char] = &[' ', ' ', '\t', '\n', '\r'];
        const UNI: &[char] = &[
            '\u{85}', '\u{a0}', '\u{2028}', '\u{3000}', '\u{feff}', 'é', 'ß', 'Ω', '中', '\u{200b}', '\u{d7ff}',
            '\u{e000}', '\u{fffd}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}',
            '\u{800}', '\u{301}', '\u{2003}',
        ];
        match self.below(20) {
            0..=9 => (b'a' + self.below(26) as u8) as char,
            10..=11 => (b'0' + self.below(10) as u8) as char,
            12..=14 => *self.pick(SPECIAL),
            15..=17 => *self.pick(WS),
            18 => *self.pick(UNI),
            _ => loop {
                let c = match self.below(3) {
                    0 => self.range(0x20, 0x24f),
                    1 => self.range(0x250, 0xfffd),
                    _ => self.range(0x10000, 0x10ffff),
                };
                if let Some(c) = char::from_u32(c as u32) {
                    break c;
                }
            },
        }
    }

    pub fn xml_text(&mut self, max: usize) -> String {
        const FIXED: &[&str] = &[
            "", " ", "\t", "\n", "\r", "\r\n", "  \n ", "]]>", "]]", ">", "]]]>]", "a]]>b", "<![CDATA[x]]>", "&amp;",
            "&#10;", "<!-- c -->", "<?pi?>", "--", "true", "1", "0", "false", "small", "x y", " lead", "trail ",
            "a\u{a0}b", "\u{feff}", "é", "\u{1f600}", "\u{2028}", "'", "\"", "\"'<>&",
        ];
        if self.chance(4) {
            let mut s = self.word();
            if self.chance(30) {
                let c = self.xml_char();
                s.insert(if self.chance(50) { 0 } else { s.len() }, c);
            }
            return s;
        }
        if self.below(500) == 0 && !cfg!(miri) {
            // Long.
            let max = *self.pick(&[2_000, 2_000, 2_000, 2_000, 2_000, 2_000, 10_000, 10_000, 10_000, 70_000]);
            let n = self.size(max).unwrap_or(300);
            let (a, b) = (self.xml_char(), self.xml_char());
            const WIDE: &[char] = &['é', '\u{7ff}', '中', '\u{fffd}', '\u{1f600}', '\u{10ffff}'];
            let mut s: String = match self.below(3) {
                0 => (0..n).map(|_| 'a').collect(),
                1 => (0..n).map(|i| if i % 7 == 3 { a } else { b }).collect(),
                _ => {
                    // As many bytes, of characters which don't end where one would cut.
                    let (c, m) = (*self.pick(WIDE), self.below(4));
                    (0..m).map(|_| 'a').chain((0..n / c.len_utf8() + 2).map(|_| c)).collect()
                }
            };
            if self.chance(30) {
                s.push(self.xml_char());
            }
            return s;
        }
        match self.below(10) {
            0..=2 => (*self.pick(FIXED)).to_owned(),
            3..=4 => {
                let n = self.below(4);
                (0..n).map(|_| *self.pick(FIXED)).collect()
            }
            _ => {
                let n = self.below(max + 1);
                (0..n).map(|_| self.xml_char()).collect()
            }
        }
    }
}
