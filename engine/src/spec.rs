//! The entropy coder and its models written from the format description
//! (Amir Said's FastAC as used by LASzip), independently of the code under test:
//! the output is an unbounded list of digits, so carries need no ring buffer.

pub struct Model {
    pub n: u32,
    pub counts: Vec<u32>,
    pub dist: Vec<u32>,
    total: u32,
    cycle: u32,
    left: u32,
}

impl Model {
    pub fn new(n: u32) -> Self {
        let mut m = Model { n, counts: vec![1; n as usize], dist: vec![0; n as usize], total: 0, cycle: n, left: 0 };
        m.update();
        m.cycle = (n + 6) / 2;
        m.left = m.cycle;
        m
    }
    fn update(&mut self) {
        self.total += self.cycle;
        if self.total > 1 << 15 {
            self.total = 0;
            for c in self.counts.iter_mut() {
                *c = (*c + 1) / 2;
                self.total += *c;
            }
        }
        let scale = (1u64 << 31) / self.total as u64;
        let mut sum = 0u64;
        for i in 0..self.n as usize {
            self.dist[i] = (scale * sum >> 16) as u32;
            sum += self.counts[i] as u64;
        }
        self.cycle = (5 * self.cycle / 4).min((self.n + 6) * 8);
        self.left = self.cycle;
    }
    fn seen(&mut self, s: u32) {
        self.counts[s as usize] += 1;
        self.left -= 1;
        if self.left == 0 {
            self.update();
        }
    }
}

#[derive(Clone)]
pub struct BitModel {
    zeros: u32,
    total: u32,
    pub prob: u32,
    left: u32,
    cycle: u32,
}

impl BitModel {
    pub fn new() -> Self {
        BitModel { zeros: 1, total: 2, prob: 1 << 12, left: 4, cycle: 4 }
    }
    fn seen(&mut self, s: u32) {
        if s == 0 {
            self.zeros += 1;
        }
        self.left -= 1;
        if self.left == 0 {
            self.total += self.cycle;
            if self.total > 1 << 13 {
                self.total = (self.total + 1) / 2;
                self.zeros = (self.zeros + 1) / 2;
                if self.zeros == self.total {
                    self.total += 1;
                }
            }
            let scale = (1u64 << 31) / self.total as u64;
            self.prob = (self.zeros as u64 * scale >> 18) as u32;
            self.cycle = (5 * self.cycle / 4).min(64);
            self.left = self.cycle;
        }
    }
}

pub struct Encoder {
    pub out: Vec<u8>,
    pub base: u32,
    pub length: u32,
}

impl Encoder {
    pub fn new() -> Self {
        Encoder { out: vec![], base: 0, length: u32::MAX }
    }
    fn narrow(&mut self, add: u64, length: u32) {
        let b = self.base as u64 + add;
        if b >> 32 != 0 {
            // carry into the digits already produced
            let mut i = self.out.len();
            loop {
                i -= 1;
                self.out[i] = self.out[i].wrapping_add(1);
                if self.out[i] != 0 {
                    break;
                }
            }
        }
        self.base = b as u32;
        self.length = length;
        while self.length < 1 << 24 {
            self.digit();
        }
    }
    fn digit(&mut self) {
        self.out.push((self.base >> 24) as u8);
        self.base <<= 8;
        self.length <<= 8;
    }
    pub fn symbol(&mut self, m: &mut Model, s: u32) {
        let unit = self.length >> 15;
        let lo = m.dist[s as usize] * unit;
        let hi = if s == m.n - 1 { self.length } else { m.dist[s as usize + 1] * unit };
        self.narrow(lo as u64, hi - lo);
        m.seen(s);
    }
    pub fn bit(&mut self, m: &mut BitModel, s: u32) {
        let x = m.prob * (self.length >> 13);
        if s == 0 {
            self.narrow(0, x);
        } else {
            self.narrow(x as u64, self.length - x);
        }
        m.seen(s);
    }
    pub fn raw(&mut self, bits: u32, v: u32) {
        if bits > 19 {
            self.raw(16, v & 0xffff);
            self.raw(bits - 16, v >> 16);
        } else {
            let l = self.length >> bits;
            self.narrow(v as u64 * l as u64, l);
        }
    }
    pub fn int(&mut self, v: u32) {
        self.raw(16, v & 0xffff);
        self.raw(16, v >> 16);
    }
    pub fn int64(&mut self, v: u64) {
        self.int(v as u32);
        self.int((v >> 32) as u32);
    }
    pub fn done(mut self) -> Vec<u8> {
        let two = self.length <= 2 << 24;
        if two {
            self.narrow(1 << 23, 1 << 15);
            self.out.extend([0, 0]);
        } else {
            self.narrow(1 << 24, 1 << 23);
            self.out.extend([0, 0, 0]);
        }
        self.out
    }
}
