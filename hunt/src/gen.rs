//! Deterministic, edge-biased generators.  A case is fully determined by (seed, case number).
use std::fmt::Debug;

pub struct Gen {
    s: u64,
    pub notes: Vec<(String, String)>,
    pub size: usize,
    pub nontrivial: bool,
}

impl Gen {
    pub fn new(seed: u64, case: u64) -> Self {
        let mut g = Gen { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567, notes: vec![], size: 0, nontrivial: true };
        for _ in 0..4 {
            g.u64();
        }
        g.size = match case % 16 {
            0..=5 => 6,
            6..=11 => 16,
            12..=14 => 48,
            _ => 160,
        };
        g
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// inclusive range
    pub fn r(&mut self, a: usize, b: usize) -> usize {
        if b <= a {
            return a;
        }
        a + (self.u64() % ((b - a + 1) as u64)) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.r(0, 99) < pct
    }
    pub fn unit(&mut self) -> f32 {
        (self.u64() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn f(&mut self, a: f32, b: f32) -> f32 {
        a + (b - a) * self.unit()
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.r(0, v.len() - 1);
        v[i].clone()
    }
    /// a length, biased to small ones
    pub fn len(&mut self) -> usize {
        match self.r(0, 9) {
            0 => self.r(0, 2),
            1..=4 => self.r(0, 6.min(self.size)),
            _ => self.r(0, self.size),
        }
    }
    /// finite value in a style: style 0 quantised small (many ties), 1 uniform, 2 wide exponent range, 3 mostly zero
    pub fn val(&mut self, style: usize, signed: bool) -> f32 {
        let v = match style {
            0 => self.r(0, 4) as f32 * 0.25,
            1 => self.unit(),
            2 => {
                let e = self.r(0, 24) as i32 - 14;
                self.unit() * 10f32.powi(e)
            }
            3 => {
                if self.chance(80) {
                    0.0
                } else {
                    self.unit()
                }
            }
            4 => self.r(0, 9) as f32,
            _ => self.unit() * 100.0,
        };
        if signed && self.chance(50) {
            -v
        } else {
            v
        }
    }
    pub fn vals(&mut self, n: usize, signed: bool) -> Vec<f32> {
        let style = self.r(0, 5);
        let mode = self.r(0, 9);
        match mode {
            0 => {
                let c = self.val(style, signed);
                vec![c; n]
            }
            1 => {
                // ramp with noise
                let s = self.f(-0.1, 0.1);
                let b = self.f(0.0, 1.0);
                (0..n).map(|i| { let x = b + s * i as f32 + self.unit() * 0.02; if signed { x } else { x.abs() } }).collect()
            }
            2 => {
                // impulses
                let p = self.r(2, 9);
                let ph = self.r(0, p - 1);
                (0..n).map(|i| if i % p == ph { 1.0 + self.unit() } else { self.unit() * 0.05 }).collect()
            }
            _ => (0..n).map(|_| self.val(style, signed)).collect(),
        }
    }
    /// spectrogram; rect=false may make it ragged
    pub fn spec(&mut self, nf: usize, nb: usize) -> Vec<Vec<f32>> {
        let mode = self.r(0, 3);
        let style = self.r(0, 5);
        let env = self.vals(nf, false);
        (0..nf).map(|i| match mode {
            0 => (0..nb).map(|_| self.val(style, false)).collect(),
            1 => { let e = env[i]; (0..nb).map(|_| e * self.unit()).collect() }
            2 => vec![env[i]; nb],
            _ => { let m = self.r(0, 5); let z = self.chance(30); (0..nb).map(|_| if z { 0.0 } else { self.val(m, false) }).collect() }
        }).collect()
    }
    pub fn ragged(&mut self, mut s: Vec<Vec<f32>>) -> Vec<Vec<f32>> {
        if s.is_empty() {
            return s;
        }
        let i = self.r(0, s.len() - 1);
        match self.r(0, 2) {
            0 => { s[i].pop(); }
            1 => s[i].push(0.5),
            _ => s[i].clear(),
        }
        s
    }
    pub fn note<T: Debug + ?Sized>(&mut self, n: &str, v: &T) {
        self.notes.push((n.to_string(), format!("{:?}", v)));
    }
}
