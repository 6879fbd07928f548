//! Reference implementation of UAX #15 over the committed Unicode 16 data; shares nothing with /repo.
use std::collections::HashMap;
pub struct Ucd {
    pub ccc: Vec<u8>, pub mark: Vec<bool>, pub asg: Vec<bool>,
    pub d: HashMap<char, Vec<char>>, pub k: HashMap<char, Vec<char>>, pub v: HashMap<char, Vec<char>>,
    pub p: HashMap<(char, char), char>,
}
static TXT: &str = include_str!("../../spec/ucd16.txt");
fn hx(s: &str) -> u32 { u32::from_str_radix(s, 16).unwrap() }
fn ch(s: &str) -> char { char::from_u32(hx(s)).unwrap() }
impl Ucd {
    pub fn load() -> Ucd {
        let mut u = Ucd { ccc: vec![0; 0x110000], mark: vec![false; 0x110000], asg: vec![false; 0x110000], d: HashMap::new(), k: HashMap::new(), v: HashMap::new(), p: HashMap::new() };
        for l in TXT.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            match f.first().copied() {
                Some("C") => for i in hx(f[1])..=hx(f[2]) { u.ccc[i as usize] = f[3].parse().unwrap(); },
                Some("M") => for i in hx(f[1])..=hx(f[2]) { u.mark[i as usize] = true; },
                Some("A") => for i in hx(f[1])..=hx(f[2]) { u.asg[i as usize] = true; },
                Some("D") => { u.d.insert(ch(f[1]), f[2..].iter().map(|s| ch(s)).collect()); }
                Some("K") => { u.k.insert(ch(f[1]), f[2..].iter().map(|s| ch(s)).collect()); }
                Some("V") => { u.v.insert(ch(f[1]), f[2..].iter().map(|s| ch(s)).collect()); }
                Some("P") => { u.p.insert((ch(f[1]), ch(f[2])), ch(f[3])); }
                _ => {}
            }
        }
        u
    }
    pub fn ccc(&self, c: char) -> u8 { self.ccc[c as usize] }
    pub fn hangul(c: char) -> bool { (0xAC00..0xAC00 + 11172).contains(&(c as u32)) }
    pub fn dec(&self, kk: bool, c: char, out: &mut Vec<char>) {
        if Self::hangul(c) {
            let s = c as u32 - 0xAC00;
            out.push(char::from_u32(0x1100 + s / 588).unwrap());
            out.push(char::from_u32(0x1161 + (s % 588) / 28).unwrap());
            if s % 28 != 0 { out.push(char::from_u32(0x11A7 + s % 28).unwrap()); }
            return;
        }
        if kk { if let Some(v) = self.k.get(&c) { out.extend(v); return; } }
        match self.d.get(&c) { Some(v) => out.extend(v), None => out.push(c) }
    }
    pub fn decs(&self, kk: bool, s: &[char]) -> Vec<char> { let mut o = vec![]; for &c in s { self.dec(kk, c, &mut o); } o }
    /// canonical ordering by exchange of adjacent marks
    pub fn nfd(&self, kk: bool, s: &[char]) -> Vec<char> {
        let mut o = self.decs(kk, s);
        let mut i = 0;
        while i < o.len() {
            if self.ccc(o[i]) == 0 { i += 1; continue; }
            let mut j = i;
            while j < o.len() && self.ccc(o[j]) != 0 { j += 1; }
            o[i..j].sort_by_key(|&c| self.ccc(c));
            i = j;
        }
        o
    }
    pub fn compose(&self, a: char, b: char) -> Option<char> {
        let (x, y) = (a as u32, b as u32);
        if (0x1100..0x1113).contains(&x) && (0x1161..0x1176).contains(&y) { return char::from_u32(0xAC00 + ((x - 0x1100) * 21 + (y - 0x1161)) * 28); }
        if Self::hangul(a) && (x - 0xAC00) % 28 == 0 && (0x11A8..0x11C3).contains(&y) { return char::from_u32(x + (y - 0x11A7)); }
        self.p.get(&(a, b)).copied()
    }
    /// D117: each character against the last starter it is not blocked from
    pub fn nfc(&self, kk: bool, s: &[char]) -> Vec<char> {
        let d = self.nfd(kk, s);
        let mut o: Vec<char> = vec![];
        let mut last: Option<usize> = None;
        for &c in &d {
            if let Some(l) = last {
                // blocked iff something between has ccc 0 or >= ccc(c)
                let between = &o[l + 1..];
                let between = if between.len() > 600 { &between[between.len() - 600..] } else { between }; // in order, so the last decides
                let blocked = between.iter().any(|&b| self.ccc(b) == 0 || self.ccc(b) >= self.ccc(c));
                if !blocked { if let Some(p) = self.compose(o[l], c) { o[l] = p; continue; } }
            }
            o.push(c);
            if self.ccc(c) == 0 { last = Some(o.len() - 1); }
        }
        o
    }
    pub fn form(&self, f: usize, s: &[char]) -> Vec<char> {
        match f { 0 => self.nfd(false, s), 1 => self.nfd(true, s), 2 => self.nfc(false, s), _ => self.nfc(true, s) }
    }
    pub fn max_run(&self, s: &[char]) -> usize {
        let (mut m, mut n) = (0, 0);
        for c in self.decs(true, s) { if self.ccc(c) == 0 { n = 0 } else { n += 1; m = m.max(n) } }
        m
    }
    pub fn safe(&self, s: &[char]) -> bool { self.max_run(s) <= 30 }
    /// UAX15-D4
    pub fn stream_safe(&self, s: &[char]) -> Vec<char> {
        let mut o = vec![];
        let mut n = 0;
        for &c in s {
            let mut d = vec![]; self.dec(true, c, &mut d);
            let lead = d.iter().take_while(|&&x| self.ccc(x) != 0).count();
            let trail = d.iter().rev().take_while(|&&x| self.ccc(x) != 0).count();
            if n + lead > 30 { o.push('\u{34F}'); n = 0; }
            if lead == d.len() { n += d.len(); } else { n = trail; }
            o.push(c);
        }
        o
    }
    pub fn variant(&self, c: char) -> Vec<char> { self.v.get(&c).cloned().unwrap_or_else(|| vec![c]) }
    pub fn variants(&self, s: &[char]) -> Vec<char> { s.iter().flat_map(|&c| self.variant(c)).collect() }
}
