//! Every source of nondeterminism draws from one of these streams. A stream is
//! a PRNG seeded from (run seed, stream number) whose draws are recorded, or a
//! recorded list being replayed. Value 0 always means "the simplest choice /
//! no fault", so dropping or zeroing recorded values simplifies a run.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum S {
    Plan = 0,
    Net = 1,
    Sched = 2,
    Time = 3,
    Select = 4,
    Rand = 5,
    Preempt = 6,
    Fault = 7,
    Io = 8,
    Work = 9,
}
pub const NSTREAMS: usize = 10;
pub const STREAM_NAMES: [&str; NSTREAMS] =
    ["plan", "net", "sched", "time", "select", "rand", "preempt", "fault", "io", "work"];

pub struct Stream {
    state: [u64; 2],
    pub rec: Vec<u64>,
    pub replay: Option<Vec<u64>>,
    pos: usize,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Stream {
    pub fn new(seed: u64, n: usize, replay: Option<Vec<u64>>) -> Stream {
        let mut s = seed ^ (n as u64 + 1).wrapping_mul(0xD1B5_4A32_D192_ED03);
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Stream { state: [a, b], rec: Vec::new(), replay, pos: 0 }
    }
    fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.state[0];
        let mut s1 = self.state[1];
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.state[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.state[1] = s1.rotate_left(37);
        r
    }
    /// `gen` maps a raw random word to a value; in replay the recorded value is
    /// passed through `clamp`.
    fn draw(&mut self, gen: impl FnOnce(u64) -> u64, clamp: impl FnOnce(u64) -> u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                clamp(v)
            }
            None => {
                let x = self.next();
                gen(x)
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(|x| ((x as u128 * n as u128) >> 64) as u64, |v| v % n)
    }
    pub fn chance(&mut self, ppm: u32) -> bool {
        if ppm == 0 {
            return false;
        }
        self.draw(|x| ((((x as u128 * 1_000_000) >> 64) as u32) < ppm) as u64, |v| (v != 0) as u64) != 0
    }
    pub fn word(&mut self) -> u64 {
        self.draw(|x| x, |v| v)
    }
    /// Distance to the next rare event with mean 1e6/ppm; 0 = never.
    pub fn gap(&mut self, ppm: u32) -> u64 {
        if ppm == 0 {
            return 0;
        }
        self.draw(
            |x| {
                let u = ((x >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
                let p = (ppm as f64 / 1e6).min(0.999_999);
                // inverse geometric, computed with a fixed polynomial-free path
                let g = (u.ln() / (1.0 - p).ln()).floor();
                1 + g.min(1e9) as u64
            },
            |v| v,
        )
    }
}
