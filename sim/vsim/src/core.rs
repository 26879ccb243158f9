//! What every session has: its tapes, its history and its verdicts.

use crate::gen::Knobs;
use crate::sched::{self, Out};
use crate::tape::{hash_bytes, Tape, Tapes};
use crate::tok::*;
use proc_macro2::sim::Join;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    /// What stays the same while a failing run is made smaller.
    pub class: String,
    pub text: String,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
    pub shapes: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_default() += n;
    }
    pub fn top(&mut self, k: &'static str, n: u64) {
        let e = self.max.entry(k).or_default();
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            *self.n.entry(k).or_default() += v;
        }
        for (k, v) in o.max {
            let e = self.max.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.shapes.extend(o.shapes);
        self.schedules.extend(o.schedules);
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

/// Of the whole run.
#[derive(Clone, Debug)]
pub struct Cfg {
    /// The property under check.
    pub prop: String,
    /// Percent of calls that are aborted once before they are retried.
    pub crash: u32,
    /// Percent of steps with a damaging or unusual choice.
    pub odd: u32,
    pub join: Join,
    /// 0 alone, 1 adjacent, 2 random
    pub spacer: u32,
    pub files: bool,
}

pub struct Core {
    pub cfg: Cfg,
    pub ix: usize,
    pub work: Tape,
    pub fault: Tape,
    pub keep: bool,
    pub log: Vec<String>,
    pub hash: u64,
    pub viol: Vec<Viol>,
    pub stats: Stats,
    pub steps: u64,
    pub next_file: u32,
    pub knobs: Knobs,
}

/// The most token operations a call may take that was given `n` tokens.
pub fn bound(n: u64) -> u64 {
    16 * n + 400
}

impl Core {
    pub fn new(cfg: &Cfg, tapes: &Tapes, ix: usize, keep: bool) -> Core {
        let mut work = tapes.get(&format!("work{ix}"));
        let fault = tapes.get(&format!("fault{ix}"));
        let knobs = Knobs::draw(&mut work);
        Core {
            cfg: cfg.clone(),
            ix,
            work,
            fault,
            keep,
            log: Vec::new(),
            hash: 0,
            viol: Vec::new(),
            stats: Stats::default(),
            steps: 0,
            next_file: 1 + 512 * ix as u32,
            knobs,
        }
    }
    pub fn finish(&self, tapes: &mut Tapes) {
        tapes.put(&format!("work{}", self.ix), &self.work);
        tapes.put(&format!("fault{}", self.ix), &self.fault);
    }
    /// Part of what the session observed.
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.keep {
            let s = f();
            self.hash = hash_bytes(self.hash, s.as_bytes());
            self.log.push(s);
        }
    }
    pub fn fail(&mut self, props: &[&'static str], class: &str, text: String) {
        self.say(|| format!("!! {class}: {text}"));
        if self.viol.len() < 20 {
            self.viol.push(Viol {
                props: props.to_vec(),
                class: class.to_string(),
                text,
            });
        }
    }
    /// A call into the library that was given `n` tokens.
    pub fn call<R>(&mut self, what: &str, n: u64, f: impl FnOnce() -> R) -> Out<R> {
        self.call_at(what, n, 0, f)
    }
    pub fn call_at<R>(&mut self, what: &str, n: u64, crash: u64, f: impl FnOnce() -> R) -> Out<R> {
        sched::boundary();
        let r = sched::call(crash, 50 * bound(n), f);
        self.steps += r.ops;
        self.stats.add("calls", 1);
        if let Some(k) = r.crash_kind {
            self.stats.add(CRASH_AT[k as usize], 1);
        } else if crash > 0 {
            self.stats.add("fault: abort armed, call ended before it", 1);
        }
        if matches!(r.out, Out::Steps) || r.ops > bound(n) {
            let text = format!("{what}: {} token operations for {n} tokens", r.ops);
            self.fail(&["C12"], "too many operations", text);
        }
        self.stats.top("operations in one call", r.ops);
        self.stats.top("operations per 100 tokens of a call", r.ops * 100 / (n + 20));
        r.out
    }
    /// Where to abort a call that takes about `n` operations; 0: nowhere.
    pub fn draw_crash(&mut self, n: u64) -> u64 {
        if !self.fault.chance(self.cfg.crash) {
            return 0;
        }
        let n = (2 * n + 6).min(5000) as u32;
        match self.fault.below(3) {
            0 => 1 + self.fault.below(n.min(8)) as u64,
            _ => 1 + self.fault.below(n) as u64,
        }
    }
    pub fn file(&mut self) -> u32 {
        let f = 1 + self.next_file % 4000;
        self.next_file += 4;
        f * proc_macro2::sim::FILE_SIZE
    }
    /// Gives tokens made by the generator their spacing and places.
    pub fn deliver(&mut self, ts: &mut [Tk]) {
        let mut at = self.file();
        let mut spacer = match self.cfg.spacer {
            0 => Spacer::Alone,
            1 => Spacer::Adjacent,
            _ => Spacer::Random(self.work.below(1 << 30) as u64),
        };
        deliver(ts, &mut spacer, &mut at);
        if self.cfg.files {
            let mut s = self.work.below(1 << 30) as u64;
            scatter(ts, &mut s);
        }
    }
}

/// Moves some tokens to other source files, as macro expansion does.
fn scatter(ts: &mut [Tk], s: &mut u64) {
    for t in ts {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let r = crate::tape::mix(*s);
        if r % 4 == 0 {
            let d = (1 + (r >> 8) % 3) as u32 * proc_macro2::sim::FILE_SIZE;
            t.sp = (t.sp.0 + d, t.sp.1 + d);
        }
        if let K::G(_, inner) = &mut t.k {
            scatter(inner, s);
        }
    }
}

const CRASH_AT: [&str; 8] = [
    "fault: abort at next-token",
    "fault: abort at fork",
    "fault: abort at open",
    "fault: abort at enter-group",
    "fault: abort at append",
    "fault: abort at wrap",
    "fault: abort at intern",
    "fault: abort at join",
];

pub trait Session {
    /// False: nothing left to do.
    fn step(&mut self, c: &mut Core) -> bool;
}
