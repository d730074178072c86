//! splitmix64: every random choice of a run derives from VERIF_SEED.
//! RT_DICT may name numbers and texts to prefer (literals of the source under test that are new to it).
use std::sync::OnceLock;
struct Dict {
    ints: Vec<i128>,
    strs: Vec<String>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let j: serde_json::Value = std::env::var("RT_DICT").ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
        let list = |k: &str| j[k].as_array().cloned().unwrap_or_default();
        Dict {
            ints: list("ints").iter().filter_map(|v| v.as_i64().map(i128::from).or(v.as_u64().map(i128::from))).collect(),
            strs: list("strs").iter().filter_map(|v| v.as_str().map(String::from)).collect(),
        }
    })
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn raw(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// a number of the dictionary, or next to one, within [lo,hi]
    fn known(&mut self, lo: i128, hi: i128, one_in: usize) -> Option<i128> {
        let d = &dict().ints;
        if d.is_empty() || self.raw(one_in) > 0 {
            return None;
        }
        let v = d[self.raw(d.len())] + [0, 0, 0, 1, -1][self.raw(5)];
        let v = if lo < 0 && self.raw(4) == 0 { -v } else { v };
        (lo <= v && v <= hi).then_some(v)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n >= 16 {
            if let Some(v) = self.known(0, n as i128 - 1, 12) {
                return v as usize;
            }
        }
        self.raw(n)
    }
    /// how many: usually n, at times far more, never more than max
    pub fn size(&mut self, n: usize, max: usize) -> usize {
        let far = if self.raw(64) == 0 { 70_000 } else { 600 };
        if let Some(v) = self.known(0, far, 8) {
            return (v as usize).min(max);
        }
        if self.raw(80) == 0 { (60 + self.raw(240)).min(max) } else { n.min(max) }
    }
    /// fewer than n, at times far more
    pub fn count(&mut self, n: usize) -> usize {
        let k = self.raw(n);
        self.size(k, 300)
    }
    /// a text of the dictionary, or close to one
    pub fn word(&mut self) -> Option<String> {
        let d = &dict().strs;
        if d.is_empty() || self.raw(5) > 0 {
            return None;
        }
        let w = d[self.raw(d.len())].clone();
        Some(self.near(&w))
    }
    /// the text itself or one that differs a little
    pub fn near(&mut self, w: &str) -> String {
        match self.raw(20) {
            0 => w.to_lowercase(),
            1 => w.to_uppercase(),
            2 => format!("{w}X"),
            3 => format!("X{w}"),
            4 => format!("{w} "),
            5 => format!(" {w}"),
            6 => format!("{w}\0"),
            7 => w.chars().skip(1).collect(),
            8 => w.chars().take(w.chars().count().saturating_sub(1)).collect(),
            9 => format!("{w}{w}"),
            11 => format!("{w}\n"),
            12 => format!("\u{feff}{w}"),
            13 => format!("\0{w}"),
            14 => format!("{w}\u{301}"),
            10 => w.replace(|c: char| c.is_ascii_digit(), "7"),
            _ => w.to_string(),
        }
    }
    pub fn range(&mut self, lo: i128, hi: i128) -> i128 {
        if hi - lo >= 16 {
            if let Some(v) = self.known(lo, hi, 12) {
                return v;
            }
        }
        let w = (hi - lo + 1) as u128;
        let r = ((self.u64() as u128) << 64 | self.u64() as u128) % w;
        lo + r as i128
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.raw(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.raw(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn byte(&mut self) -> u8 {
        if let Some(v) = self.known(0, 255, 10) {
            return v as u8;
        }
        match self.raw(6) {
            0 => 0,
            1 => 0xff,
            2 => *self.pick(&[0x01u8, 0x02, 0x7f, 0x80, 0x81, 0xfe, 0x09, 0x05, 0x03, 0x04]),
            _ => self.u64() as u8,
        }
    }
    /// an integer in [lo,hi], boundary-heavy
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        if let Some(v) = self.known(lo, hi, 5) {
            return v;
        }
        match self.raw(8) {
            0 => lo,
            1 => hi,
            2 => (lo + self.range(0, 3)).min(hi),
            3 => (hi - self.range(0, 3)).max(lo),
            4 => {
                let b = self.raw(64);
                let v = (1i128 << b) + self.range(-2, 2);
                let v = if self.chance(1, 3) { -v } else { v };
                v.clamp(lo, hi)
            }
            5 => self.range(-4, 300).clamp(lo, hi),
            _ => self.range(lo, hi),
        }
    }
}
