//! Choice tapes. Every decision of a run is one number on one tape; a tape is
//! either drawn from a seeded generator (and recorded) or replayed.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(0, s.as_bytes())
}

#[derive(Clone)]
pub struct Tape {
    pub data: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    name: String,
}

impl Tape {
    fn record(&mut self, v: u32) {
        self.data.push(v);
        if JOURNALING.load(std::sync::atomic::Ordering::Relaxed) {
            note(&self.name, v);
        }
    }
    pub fn fresh(seed: u64) -> Self {
        Tape {
            data: Vec::new(),
            pos: 0,
            name: String::new(),
            rng: Some(Rng::new(seed)),
        }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Tape {
            data,
            pos: 0,
            name: String::new(),
            rng: None,
        }
    }
    /// A number below `n`; 0 is the simplest choice.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(rng) => {
                let v = (rng.next() >> 16) as u32 % n;
                self.record(v);
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }
    /// True with probability `percent`.
    pub fn chance(&mut self, percent: u32) -> bool {
        if percent == 0 {
            return false;
        }
        let v = match &mut self.rng {
            Some(rng) => {
                let v = ((rng.next() >> 16) as u32 % 100 < percent) as u32;
                self.record(v);
                v
            }
            None => self.data.get(self.pos).copied().unwrap_or(0).min(1),
        };
        self.pos += 1;
        v == 1
    }
    /// An index with the given relative weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        if total == 0 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(rng) => {
                let mut r = (rng.next() >> 16) as u32 % total;
                let mut ix = 0;
                for (i, x) in w.iter().enumerate() {
                    if r < *x {
                        ix = i;
                        break;
                    }
                    r -= *x;
                }
                self.record(ix as u32);
                ix
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0) as usize;
                let v = v.min(w.len() - 1);
                // a choice that is switched off falls back to the first one that is not
                if w[v] == 0 {
                    w.iter().position(|x| *x > 0).unwrap_or(0)
                } else {
                    v
                }
            }
        };
        self.pos += 1;
        v
    }
    /// A small number: 0 often, large values rarely.
    pub fn small(&mut self, max: u32) -> u32 {
        let bits = self.below(4);
        let cap = match bits {
            0 => 1,
            1 => 2,
            2 => 4,
            _ => max,
        };
        self.below(cap.min(max) + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
}

/// The tapes of one run, by name.
#[derive(Clone, Default)]
pub struct Tapes {
    pub seed: u64,
    pub replay: bool,
    pub data: std::collections::BTreeMap<String, Vec<u32>>,
}

impl Tapes {
    pub fn fresh(seed: u64) -> Self {
        Tapes {
            seed,
            replay: false,
            data: Default::default(),
        }
    }
    pub fn get(&self, name: &str) -> Tape {
        let mut t = if self.replay {
            Tape::replay(self.data.get(name).cloned().unwrap_or_default())
        } else {
            Tape::fresh(hash_bytes(self.seed, name.as_bytes()))
        };
        t.name = name.to_string();
        if JOURNALING.load(std::sync::atomic::Ordering::Relaxed) {
            note(name, u32::MAX);
        }
        t
    }
    pub fn put(&mut self, name: &str, tape: &Tape) {
        let mut d = tape.data.clone();
        d.truncate(tape.used());
        self.data.insert(name.to_string(), d);
    }
}

// --- journal: for runs that end the process ---

static JOURNAL: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
static JOURNALING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Writes every choice to this file at once.
pub fn journal(path: &str) {
    *JOURNAL.lock().unwrap() = std::fs::File::create(path).ok();
    JOURNALING.store(true, std::sync::atomic::Ordering::Relaxed);
}

fn note(name: &str, v: u32) {
    use std::io::Write;
    if let Some(f) = &mut *JOURNAL.lock().unwrap() {
        let _ = f.write_all(format!("{name} {v}\n").as_bytes());
    }
}

/// The tapes of a journal; of a tape that was opened several times the longest.
pub fn from_journal(path: &str) -> Tapes {
    let mut t = Tapes {
        seed: 0,
        replay: true,
        data: Default::default(),
    };
    let mut cur: std::collections::BTreeMap<String, Vec<u32>> = Default::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some((name, v)) = l.split_once(' ') else { continue };
        let Ok(v) = v.parse::<u32>() else { continue };
        let c = cur.entry(name.to_string()).or_default();
        if v == u32::MAX {
            c.clear();
        } else {
            c.push(v);
        }
        let best = t.data.entry(name.to_string()).or_default();
        if c.len() > best.len() {
            *best = c.clone();
        }
    }
    t
}
