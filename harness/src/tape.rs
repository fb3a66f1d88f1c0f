//! One seed decides everything: every choice of a run is a draw from this tape.
//! A recorded tape replays the run exactly; draws beyond its end are 0, the simplest choice.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { self.next() % n }
    }
}

pub struct Tape {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    /// every draw also goes to this file, so that it survives the death of the process
    pub spill: Option<std::fs::File>,
}

impl Tape {
    pub fn fresh(seed: u64) -> Tape {
        Tape { rng: Rng(seed), replay: None, rec: Vec::new(), spill: None }
    }
    pub fn replay(tape: Vec<u64>) -> Tape {
        Tape { rng: Rng(0), replay: Some(tape), rec: Vec::new(), spill: None }
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => self.rng.below(n),
        };
        self.rec.push(v);
        if let Some(f) = &mut self.spill {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
}
