//! Weights in scripts and traces are 32-bit codes a*U+b standing for the real weight a*K+b.
use serde_json::Value;

pub const U: i64 = 1_000_000;

#[derive(Clone, Debug)]
pub struct Enc {
    pub name: String,
    pub k: u64,
    pub wm: i64,
}

impl Enc {
    pub fn id() -> Enc {
        Enc { name: "id".into(), k: U as u64, wm: 1_000_000_000 }
    }
    pub fn k(name: &str, k: u64) -> Enc {
        Enc { name: name.into(), k, wm: 1_000_000_000 }
    }
    /// 15 * K is exactly the maximum weight
    pub fn max64() -> Enc {
        Enc { name: "max64".into(), k: u64::MAX / 15, wm: 15 * U }
    }
    /// 15 * K is exactly 2^32 - 1
    pub fn max32() -> Enc {
        Enc { name: "max32".into(), k: (u32::MAX as u64) / 15, wm: 1_000_000_000 }
    }
    pub fn from_header(h: &Value) -> Enc {
        Enc {
            name: h["enc"].as_str().unwrap().into(),
            k: h["k"].as_str().unwrap().parse().unwrap(),
            wm: h["wm"].as_i64().unwrap(),
        }
    }
    /// node ids beyond the specification's integers
    pub fn node_ids(h: &Value) -> Option<Enc> {
        let k: u64 = h["nk"].as_str()?.parse().unwrap();
        Some(Enc { name: "ids".into(), k, wm: 2_100_000_000 })
    }
    fn parts(code: i64) -> (i64, i64) {
        let a = (code + U / 2).div_euclid(U);
        (a, code - a * U)
    }
    pub fn enc(&self, code: i64) -> usize {
        if code >= self.wm {
            return usize::MAX;
        }
        if self.name == "id" {
            return code as usize;
        }
        let (a, b) = Enc::parts(code);
        let r = (a as i128) * (self.k as i128) + b as i128;
        if r < 0 || r >= usize::MAX as i128 {
            panic!("weight code {} out of range in {}", code, self.name);
        }
        r as usize
    }
    pub fn dec(&self, real: usize) -> i64 {
        if real == usize::MAX {
            return self.wm;
        }
        if self.name == "id" {
            return if (real as u64) < self.wm as u64 { real as i64 } else { -1 };
        }
        let k = self.k as i128;
        let r = real as i128;
        let a = (r + k / 2).div_euclid(k);
        let b = r - a * k;
        if b.abs() >= (U / 2) as i128 {
            return -1;
        }
        let code = a * (U as i128) + b;
        if code >= self.wm as i128 || code < 0 {
            return -1;
        }
        code as i64
    }
    /// the smallest code whose weight does not fit the 32-bit representation
    pub fn lim32(&self) -> i64 {
        let l = u32::MAX as i128;
        if self.name == "id" {
            return self.wm;
        }
        let k = self.k as i128;
        let h = (U / 2 - 1) as i128;
        let mut a = 0i128;
        while a * k + h < l {
            a += 1;
        }
        let b = std::cmp::max(l - a * k, -h);
        let code = a * U as i128 + b;
        std::cmp::min(code, self.wm as i128) as i64
    }
    pub fn header(&self, id: &str) -> Value {
        serde_json::json!({"id": id, "enc": self.name, "k": self.k.to_string(),
                           "wm": self.wm, "lim32": self.lim32()})
    }
}
