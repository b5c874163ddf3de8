//! Deterministic generators. A case is a function of (property, case number, seed).
use std::fmt::{self, Display, Write};

#[derive(Clone)]
pub struct R(u64);
impl R {
    pub fn new(seed: u64) -> R {
        let mut r = R(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn len(&mut self) -> usize {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2..=5 => self.below(5),
            6..=8 => self.below(20),
            9 => 60 + self.below(10),
            10 => self.below(140),
            _ => 200 + self.below(120),
        }
    }
    pub fn ch(&mut self, class: usize) -> char {
        match class % 8 {
            0 => char::from(b"abcXYZ019-._~"[self.below(13)]),
            1 => char::from(b" %&=+?/:;@#\"'\\,!*()[]<>{}|^`$"[self.below(29)]),
            2 => char::from(self.below(128) as u8),
            3 => char::from_u32(0x80 + self.below(0x780) as u32).unwrap(),
            4 => char::from_u32(0x800 + self.below(0xC000) as u32).unwrap(),
            5 => char::from_u32(0x1F300 + self.below(0x300) as u32).unwrap(),
            6 => char::from(b'a' + self.below(26) as u8),
            _ => self.pick(&["%", "~", "/", "z", "\u{7f}", "\0", "é", "\u{10ffff}"]).chars().next().unwrap(),
        }
    }
    /// Arbitrary text.
    pub fn text(&mut self) -> String {
        let n = self.len();
        let mode = self.below(12);
        (0..n)
            .map(|_| {
                let c = if mode < 8 { mode } else { self.below(8) };
                self.ch(c)
            })
            .collect()
    }
    pub fn short_text(&mut self) -> String {
        let n = self.below(6);
        (0..n).map(|_| { let c = self.below(8); self.ch(c) }).collect()
    }
    /// A URI-safe name, biased towards the protocol parameter names.
    pub fn key(&mut self) -> String {
        const NEAR: [&str; 34] = [
            "oauth_callback", "oauth_callbac", "oauth_callback0", "oauth_callback_confirmed", "oauth_c",
            "oauth_consumer_key", "oauth_consumer", "oauth_consumer_key~", "oauth_d", "oauth_nonce", "oauth_nonce-",
            "oauth_o", "oauth_signature", "oauth_signature_method", "oauth_signature_methoe", "oauth_t",
            "oauth_timestamp", "oauth_timestamp_", "oauth_tokem", "oauth_token", "oauth_token_secret", "oauth_u",
            "oauth_verifier", "oauth_verifiers", "oauth_version", "oauth_version2", "oauth_z", "oauth", "oauth_", "o",
            "oauth~", "OAUTH_TOKEN", "", "p",
        ];
        match self.below(4) {
            0 | 1 => NEAR[self.below(NEAR.len())].to_owned(),
            2 => {
                let mut k = SL[self.below(8)].to_owned();
                match self.below(4) {
                    0 => { k.pop(); }
                    1 => k.push(self.ch(0)),
                    2 => { let i = self.below(k.len()); let c = self.ch(0); k.replace_range(i..i + 1, c.encode_utf8(&mut [0; 4])); }
                    _ => {}
                }
                k
            }
            _ => { let n = self.below(5); (0..n).map(|_| self.ch(0)).collect() }
        }
    }
    pub fn chunky(&mut self, s: &str) -> Chunky {
        let mut cuts = vec![];
        let style = self.below(4);
        for (i, _) in s.char_indices().skip(1) {
            let cut = match style { 0 => false, 1 => true, 2 => self.one_in(4), _ => self.flip() };
            if cut {
                cuts.push(i);
            }
        }
        if self.one_in(8) && !s.is_empty() {
            // empty writes
            cuts.insert(0, 0);
            cuts.push(s.len());
        }
        Chunky { text: s.to_owned(), cuts, by_char: self.one_in(5) }
    }
}
use crate::oracle::SLOTS as SL;

/// A value whose formatter emits `text` in the given pieces.
#[derive(Clone, PartialEq, Eq)]
pub struct Chunky {
    pub text: String,
    pub cuts: Vec<usize>,
    pub by_char: bool,
}
impl Display for Chunky {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.by_char {
            for c in self.text.chars() {
                f.write_char(c)?;
            }
            return Ok(());
        }
        let mut prev = 0;
        for &c in &self.cuts {
            f.write_str(&self.text[prev..c])?;
            prev = c;
        }
        if prev < self.text.len() || self.cuts.is_empty() {
            f.write_str(&self.text[prev..])?;
        }
        Ok(())
    }
}
impl fmt::Debug for Chunky {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.text)?;
        if self.by_char {
            write!(f, " (written char by char)")?;
        } else if !self.cuts.is_empty() {
            write!(f, " (written in pieces cut at {:?})", self.cuts)?;
        }
        Ok(())
    }
}
