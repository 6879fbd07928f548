//! Texts: every character, every primary composite in several surroundings, and weighted random texts.
use crate::refr::Ucd;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
}
pub struct Pools {
    pub marks: Vec<char>, pub by_ccc: Vec<Vec<char>>, pub firsts: Vec<char>, pub seconds: Vec<char>, pub starter_seconds: Vec<char>,
    pub comps: Vec<(char, char, char)>, pub decs: Vec<char>, pub kdecs: Vec<char>, pub lead: Vec<char>, pub trail: Vec<char>, pub compat: Vec<char>, pub all_ns: Vec<char>, pub odd: Vec<char>, pub multi: Vec<char>,
}
impl Pools {
    pub fn new(u: &Ucd) -> Pools {
        let mut by: Vec<Vec<char>> = vec![vec![]; 256];
        let mut marks = vec![];
        for i in 0..0x110000u32 { if let Some(c) = char::from_u32(i) { let k = u.ccc(c); if k != 0 { marks.push(c); by[k as usize].push(c); } } }
        let mut comps: Vec<_> = u.p.iter().map(|(&(a, b), &c)| (a, b, c)).collect(); comps.sort();
        let mut firsts: Vec<char> = comps.iter().map(|x| x.0).collect(); firsts.sort(); firsts.dedup();
        let mut seconds: Vec<char> = comps.iter().map(|x| x.1).collect(); seconds.sort(); seconds.dedup();
        let starter_seconds = seconds.iter().copied().filter(|&c| u.ccc(c) == 0).collect();
        let mut decs: Vec<char> = u.d.keys().copied().collect(); decs.sort();
        let mut kdecs: Vec<char> = u.k.keys().copied().collect(); kdecs.sort();
        let mut compat: Vec<char> = u.v.keys().copied().collect(); compat.sort();
        let (mut lead, mut trail, mut all_ns, mut multi) = (vec![], vec![], vec![], vec![]);
        for &c in decs.iter().chain(&kdecs) {
            let mut d = vec![]; u.dec(true, c, &mut d);
            let ns: Vec<bool> = d.iter().map(|&x| u.ccc(x) != 0).collect();
            if ns.iter().all(|x| *x) { all_ns.push(c); } else { if ns[0] { lead.push(c); } if *ns.last().unwrap() { trail.push(c); } }
            if d.len() > 4 { multi.push(c); }
        }
        if lead.is_empty() { lead = all_ns.clone(); } // no character of this Unicode version: keep the shape of the texts
        let odd = "\0a\u{7f}\u{80}\u{a0}\u{34f}\u{3a3}\u{fe00}\u{fe0f}\u{e0100}\u{10ffff}\u{d7ff}\u{e000}\u{ffff}\u{10000}\u{2fa1d}\u{f900}\u{110ba}\u{11099}\u{1d15e}\u{1d165}\u{1d157}\u{4e00}\u{ac00}\u{ac01}\u{d7a3}\u{1100}\u{1112}\u{1113}\u{1161}\u{1175}\u{1176}\u{11a7}\u{11a8}\u{11c2}\u{11c3}\u{fdfa}\u{9dc}\u{212b}\u{1e9b}\u{323}\u{307}\u{344}\u{385}\u{1fc1}\u{f73}\u{f75}\u{f81}\u{e38}\u{93c}\u{3099}\u{fb1d}".chars().collect();
        Pools { marks, by_ccc: by.into_iter().filter(|v| !v.is_empty()).collect(), firsts, seconds, starter_seconds, comps, decs, kdecs, lead, trail, compat, all_ns, odd, multi }
    }
    pub fn any(&self, r: &mut Rng) -> char {
        loop { if let Some(c) = char::from_u32(r.below(0x110000) as u32) { return c; } }
    }
    pub fn mark(&self, r: &mut Rng) -> char { if r.below(3) == 0 { r.pick(&self.marks) } else { let i = r.below(self.by_ccc.len()); r.pick(&self.by_ccc[i]) } }
    pub fn one(&self, r: &mut Rng, mode: usize) -> char {
        let t = match mode {
            1 => [0, 0, 0, 1, 1, 1, 9, 14, 0, 0][r.below(10)],      // marks
            2 => [3, 4, 5, 3, 4, 5, 15, 0, 2, 3][r.below(10)],      // Hangul
            3 => [1, 2, 6, 7, 8, 9, 10, 11, 13, 0][r.below(10)],
            4 => [12, 12, 12, 0, 2, 10, 1][r.below(7)],
            _ => r.below(16),
        };
        match t {
            0 => self.mark(r),
            1 => r.pick(&self.seconds),
            2 => r.pick(&self.firsts),
            3 => char::from_u32(0x1100 + r.below(0x15) as u32).unwrap(),
            4 => char::from_u32(0x1160 + r.below(0x18) as u32).unwrap(),
            5 => char::from_u32(0x11A6 + r.below(0x20) as u32).unwrap(),
            6 => r.pick(&self.comps).2,
            7 => r.pick(&self.decs),
            8 => r.pick(&self.kdecs),
            9 => r.pick(&self.all_ns),
            10 => if r.below(2) == 0 { r.pick(&self.lead) } else { r.pick(&self.trail) },
            11 => r.pick(&self.starter_seconds),
            12 => r.pick(&self.compat),
            13 => r.pick(&self.odd),
            14 => char::from_u32(0x20 + r.below(0x5f) as u32).unwrap(),
            _ => if r.below(3) == 0 { self.any(r) } else { char::from_u32(0xAC00 + r.below(11172) as u32).unwrap() },
        }
    }
    pub fn text(&self, r: &mut Rng) -> Vec<char> {
        let mut s = vec![];
        let shape = r.below(12);
        let mode = r.below(6);
        match shape {
            0..=4 => { for _ in 0..1 + r.below(6) { s.push(self.one(r, mode)); } }
            5 | 6 => { for _ in 0..1 + r.below(24) { s.push(self.one(r, mode)); } }
            7 => { // a long run
                for _ in 0..r.below(3) { s.push(self.one(r, mode)); }
                let n = 26 + r.below(10); let same = r.below(2) == 0; let m = self.mark(r);
                for _ in 0..n { let t = r.below(12); s.push(if t == 0 { r.pick(&self.all_ns) } else if same { m } else { self.mark(r) }); }
                for _ in 0..r.below(4) { s.push(self.one(r, mode)); }
            }
            8 => { // exactly around 30, ending in something that leads or trails with nonstarters
                if r.below(2) == 0 { s.push(r.pick(&self.trail)); } else if r.below(2) == 0 { s.push(self.one(r, 0)); }
                for _ in 0..27 + r.below(5) { s.push(self.mark(r)); }
                s.push(if r.below(2) == 0 { r.pick(&self.lead) } else { r.pick(&self.all_ns) });
                for _ in 0..r.below(34) { s.push(self.mark(r)); }
                s.push(self.one(r, mode));
            }
            9 => { // a composite taken apart with something in between
                let (a, b, _) = r.pick(&self.comps);
                if r.below(3) == 0 { s.push(self.one(r, 0)); }
                s.push(a);
                for _ in 0..r.below(4) { let c = self.mark(r); s.push(c); }
                s.push(b);
                for _ in 0..r.below(3) { s.push(self.one(r, 1)); }
            }
            10 => { // many, to make buffers grow
                let n = [60, 130, 300, 700][r.below(4)];
                let m2 = if r.below(2) == 0 { 1 } else { mode };
                if r.below(2) == 0 { s.push(r.pick(&self.firsts)); }
                for _ in 0..n { s.push(if m2 == 1 && r.below(20) != 0 { self.mark(r) } else { self.one(r, m2) }); }
            }
            _ => { for _ in 0..1 + r.below(8) { let c = self.one(r, mode); s.push(c); if r.below(2) == 0 { s.push(self.mark(r)); } if r.below(3) == 0 { s.push(r.pick(&self.seconds)); } if r.below(4) == 0 { s.push('a'); } } }
        }
        s
    }
}
