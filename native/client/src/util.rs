use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| self.ch()).collect()
    }
    pub fn ch(&mut self) -> char {
        match self.below(6) {
            0 => char::from(self.below(128) as u8),
            1 => *[' ', '/', '\\', '?', '#', '%', '.', '{', '}', '"', '<', '>', '`', '&', '=', '+', ';', ':', '@', '|', '^', '[', ']']
                .get(self.below(23))
                .unwrap(),
            2 => char::from_u32(0x80 + self.below(0x700) as u32).unwrap(),
            3 => char::from_u32(0x4e00 + self.below(0x100) as u32).unwrap(),
            4 => char::from_u32(0x1f600 + self.below(0x40) as u32).unwrap(),
            _ => char::from(b'a' + self.below(26) as u8),
        }
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub cases: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<(String, String)>,
    pub thorough: bool,
    pub rt: tokio::runtime::Runtime,
}

impl Ctx {
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// one case: a panic or Err is a failure identified by key
    pub fn case(&mut self, key: impl FnOnce() -> String, f: impl FnOnce(&tokio::runtime::Runtime) -> Result<(), String>) {
        self.cases += 1;
        let key = key();
        if self.distinct.insert(hash(&key)) && (self.distinct.len() & (self.distinct.len() - 1)) == 0 && self.samples.len() < 12 {
            self.samples.push(key.chars().take(300).collect());
        }
        let rt = &self.rt;
        let r = catch_unwind(AssertUnwindSafe(|| f(rt)));
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => {
                let t = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                format!("panicked: {t}")
            }
        };
        if self.fails.len() < 50 {
            let k = key;
            if !self.fails.iter().any(|(x, _)| *x == k) {
                self.fails.push((k, msg));
            }
        }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

pub fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
