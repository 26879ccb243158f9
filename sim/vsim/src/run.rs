//! One simulated run: which sessions there are, how they are mixed, what is
//! compared afterwards.

use crate::core::{Cfg, Core, Session, Stats, Viol};
use crate::doc::Opts;
use crate::tape::{hash_bytes, Tape, Tapes};
use crate::{damage, edit, errs, list, paths, read, sched, show};
use proc_macro2::sim::{self, Join};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

#[derive(Clone, Copy)]
pub enum Fam {
    Read(Opts),
    Damage(Opts, bool),
    Edit,
    Lists,
    Errs,
    Paths,
    Show,
}

impl Fam {
    fn name(&self) -> &'static str {
        match self {
            Fam::Read(_) => "sessions: reading",
            Fam::Damage(_, false) => "sessions: damaged streams",
            Fam::Damage(_, true) => "sessions: unsupported syntax",
            Fam::Edit => "sessions: editing",
            Fam::Lists => "sessions: lists",
            Fam::Errs => "sessions: errors",
            Fam::Paths => "sessions: paths",
            Fam::Show => "sessions: debugging views",
        }
    }
    fn start(&self, c: &mut Core) -> Box<dyn Session> {
        match self {
            Fam::Read(o) => Box::new(read::Read::new(c, *o)),
            Fam::Damage(o, odd) => Box::new(damage::Damage::new(c, *o, *odd)),
            Fam::Edit => Box::new(edit::Edit::new(c)),
            Fam::Lists => Box::new(list::Lists::new(c)),
            Fam::Errs => Box::new(errs::Errs::new(c)),
            Fam::Paths => Box::new(paths::Paths::new(c)),
            Fam::Show => Box::new(show::Show::new(c)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Solo,
    Coop,
    Threads,
}

pub struct Plan {
    pub mode: Mode,
    /// The flag: a session of the property under check, not company.
    pub sessions: Vec<(Fam, Cfg, bool)>,
    pub quantum: u32,
    pub alloc: bool,
}

fn opts(prop: &str, t: &mut Tape, small: bool) -> Opts {
    let mut o = Opts {
        max_items: if small { 2 } else { [3, 1, 6][t.below(3) as usize] },
        foreign: [0, 30][t.below(2) as usize],
        ..Opts::default()
    };
    match prop {
        "C05" => {
            o.bad = [40, 80][t.below(2) as usize];
            o.enums = 50;
            o.max_items = o.max_items.max(2);
        }
        "C12" => {
            if t.chance(12) {
                o.max_items = 1;
                o.long = 70;
            } else if t.chance(15) {
                o.max_items = 1;
                o.deep = 80;
            }
        }
        "C01" | "C02" | "C03" | "C04" => {
            o.bad = if t.chance(10) { 30 } else { 0 };
            o.long = if t.chance(2) { 30 } else { 0 };
            o.deep = if t.chance(3) { 50 } else { 0 };
        }
        _ => o.bad = if t.chance(20) { 30 } else { 0 },
    }
    o
}

fn family(prop: &str, t: &mut Tape, small: bool) -> Fam {
    let o = opts(prop, t, small);
    match prop {
        "C01" | "C02" | "C03" | "C05" => Fam::Read(o),
        "C04" => Fam::Damage(o, false),
        "C07" => Fam::Lists,
        "C08" | "C09" | "C11" => Fam::Edit,
        "C10" => Fam::Errs,
        "C12" => match t.weighted(&[5, 6, 2, 1, 2]) {
            0 => Fam::Read(o),
            1 => Fam::Damage(o, false),
            2 => Fam::Paths,
            3 => Fam::Lists,
            _ => Fam::Edit,
        },
        "C13" => Fam::Paths,
        "C14" => Fam::Damage(o, true),
        "C15" => match t.weighted(&[7, 2, 2, 1]) {
            0 => Fam::Show,
            1 => Fam::Edit,
            2 => Fam::Errs,
            _ => Fam::Paths,
        },
        _ => match t.weighted(&[4, 2, 2, 4, 2, 2, 2, 1]) {
            0 => Fam::Read(o),
            1 => Fam::Damage(o, false),
            2 => Fam::Damage(o, true),
            3 => Fam::Edit,
            4 => Fam::Lists,
            5 => Fam::Errs,
            6 => Fam::Paths,
            _ => Fam::Show,
        },
    }
}

fn cfg(prop: &str, t: &mut Tape) -> Cfg {
    Cfg {
        prop: prop.to_string(),
        crash: [0, 15, 40, 5][t.below(4) as usize],
        odd: [0, 10, 30][t.below(3) as usize],
        join: [Join::SameFile, Join::Never, Join::Always][t.below(3) as usize],
        spacer: t.below(3),
        files: t.chance(30),
    }
}

pub fn plan(prop: &str, t: &mut Tape) -> Plan {
    let mode = match prop {
        "C06" => Mode::Threads,
        _ => [Mode::Solo, Mode::Coop, Mode::Threads][t.weighted(&[50, 38, 12])],
    };
    let n = match mode {
        Mode::Solo => 1,
        Mode::Coop => 2 + t.below(2),
        Mode::Threads => 2 + t.below(2),
    };
    let quantum = if mode == Mode::Threads {
        [100, 30, 8, 3, 2, 1][t.weighted(&[3, 4, 4, 2, 1, 1])]
    } else {
        1
    };
    let alloc = mode == Mode::Threads && t.chance(40);
    let sessions = (0..n)
        .map(|i| {
            // some company of another kind
            let own = i == 0 || !t.chance(25);
            let p = if own { prop } else { "any" };
            (family(p, t, mode == Mode::Threads), cfg(prop, t), own)
        })
        .collect();
    Plan {
        mode,
        sessions,
        quantum,
        alloc,
    }
}

pub struct Run {
    /// Of the property under check.
    pub viol: Option<Viol>,
    pub stats: Stats,
    pub tapes: Tapes,
    pub log: Vec<String>,
    pub hash: u64,
    pub steps: u64,
    pub rescued: bool,
}

struct Driver {
    c: Core,
    fam: Fam,
    s: Option<Box<dyn Session>>,
    left: u32,
    own: bool,
    id: u32,
}

const MAX_STEPS: u32 = 120;

fn prop_id(p: &str) -> &'static str {
    const ALL: [&str; 20] = [
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
        "C16", "C17", "C18", "C19", "C20",
    ];
    ALL.iter().find(|x| **x == p).copied().unwrap_or("C06")
}

impl Driver {
    fn new((fam, cfg, own): &(Fam, Cfg, bool), tapes: &Tapes, ix: usize, keep: bool, pass: u32) -> Driver {
        let mut c = Core::new(cfg, tapes, ix, keep);
        c.stats.add(fam.name(), 1);
        Driver {
            c,
            fam: *fam,
            s: None,
            left: MAX_STEPS,
            own: *own,
            id: 8 * pass + ix as u32,
        }
    }
    fn step(&mut self) -> bool {
        sim::set_join(self.c.cfg.join);
        sim::set_session(self.id);
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        let (s, fam, c) = (&mut self.s, self.fam, &mut self.c);
        let r = catch_unwind(AssertUnwindSafe(|| match s {
            None => {
                *s = Some(fam.start(c));
                true
            }
            Some(s) => s.step(c),
        }));
        let more = match r {
            Ok(more) => more,
            Err(p) => {
                // the library panicked in something that has no result to be
                // judged: reading a list, a clone, a comparison
                let at = sched::panicked();
                if at.is_empty() || at.contains("vsim/src") || at.starts_with("src/") {
                    resume_unwind(p);
                }
                let id = prop_id(&self.c.cfg.prop);
                if self.own && id != "C06" {
                    self.c.fail(&[id], "panic where nothing may panic", at);
                } else {
                    self.c.say(|| format!("panicked at {at}"));
                }
                false
            }
        };
        if !more {
            self.left = 0;
        }
        more
    }
}

/// What one session leaves behind.
struct Done {
    ix: usize,
    log: Vec<String>,
    hash: u64,
    viol: Vec<Viol>,
    stats: Stats,
    steps: u64,
    work: Tape,
    fault: Tape,
}

fn done(d: Driver) -> Done {
    let mut c = d.c;
    drop(d.s);
    let name = match c.cfg.join {
        Join::Always => "fault: sessions where all spans join",
        Join::Never => "fault: sessions where no spans join",
        Join::SameFile => "fault: sessions where spans of one file join",
    };
    c.stats.add(name, 1);
    if c.cfg.files {
        c.stats.add("fault: sessions with tokens of mixed sources", 1);
    }
    let sp = [
        "fault: sessions with all spacing alone",
        "fault: sessions with adjacent spacing",
        "fault: sessions with random spacing",
    ][c.cfg.spacer as usize];
    c.stats.add(sp, 1);
    Done {
        ix: c.ix,
        log: c.log,
        hash: c.hash,
        viol: c.viol,
        stats: c.stats,
        steps: c.steps,
        work: c.work,
        fault: c.fault,
    }
}

fn solo(p: &Plan, tapes: &Tapes, keep: bool, pass: u32) -> Vec<Done> {
    p.sessions
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let mut d = Driver::new(f, tapes, i, keep, pass);
            while d.step() {}
            let r = done(d);
            sim::forget_sources();
            r
        })
        .collect()
}

fn coop(p: &Plan, tapes: &Tapes, keep: bool, sched: &mut Tape) -> (Vec<Done>, u64) {
    let mut ds: Vec<Driver> = p
        .sessions
        .iter()
        .enumerate()
        .map(|(i, f)| Driver::new(f, tapes, i, keep, 2))
        .collect();
    let mut live: Vec<usize> = (0..ds.len()).collect();
    let mut hash = 7;
    while !live.is_empty() {
        let k = sched.below(live.len() as u32) as usize;
        let i = live[k];
        hash = hash_bytes(hash, &[i as u8]);
        if !ds[i].step() {
            live.remove(k);
        }
    }
    let r = ds.into_iter().map(done).collect();
    sim::forget_sources();
    (r, hash)
}

/// After this many runs in which the library waited on a lock held by a parked
/// thread, threads are only switched between calls.
const MAX_RESCUES: u32 = 3;
static RESCUES: AtomicU32 = AtomicU32::new(0);

fn threads(p: &Plan, tapes: &Tapes, keep: bool, sched: Tape) -> (Vec<Done>, sched::ThreadStats) {
    let bodies: Vec<Box<dyn FnOnce() -> Done + Send + '_>> = p
        .sessions
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let b: Box<dyn FnOnce() -> Done + Send + '_> = Box::new(move || {
                let mut d = Driver::new(f, tapes, i, keep, 3);
                while d.step() {}
                done(d)
            });
            b
        })
        .collect();
    let calm = RESCUES.load(Relaxed) >= MAX_RESCUES;
    sched::calls_only(calm);
    let (r, st) = sched::run_threads(sched, p.quantum, p.alloc && !calm, bodies);
    if st.rescued {
        RESCUES.fetch_add(1, Relaxed);
    }
    let r = r
        .into_iter()
        .map(|r| match r {
            Ok(d) => d,
            Err(p) => std::panic::resume_unwind(p),
        })
        .collect();
    (r, st)
}

fn compare(prop: &str, a: &[Done], b: &[Done], how: &str) -> Option<Viol> {
    for (x, y) in a.iter().zip(b) {
        if x.hash == y.hash && x.log.len() == y.log.len() {
            continue;
        }
        let i = x.log.iter().zip(&y.log).position(|(p, q)| p != q);
        let i = i.unwrap_or(x.log.len().min(y.log.len()));
        let none = "(nothing more)".to_string();
        let (p, q) = (x.log.get(i).unwrap_or(&none), y.log.get(i).unwrap_or(&none));
        return Some(Viol {
            props: vec!["C06"],
            class: format!("results differ {how}"),
            text: format!(
                "session {}, observation {i}, {how}:\n  alone: {}\n  {how}: {}\n  [{prop}]",
                x.ix,
                p.chars().take(700).collect::<String>(),
                q.chars().take(700).collect::<String>()
            ),
        });
    }
    None
}

pub fn run(prop: &str, tapes: &Tapes, keep: bool) -> Run {
    let mut t = tapes.get("config");
    let p = plan(prop, &mut t);
    let mut out = Run {
        viol: None,
        stats: Stats::default(),
        tapes: tapes.clone(),
        log: Vec::new(),
        hash: 0,
        steps: 0,
        rescued: false,
    };
    out.tapes.put("config", &t);
    let keep = keep || prop == "C06";
    let name = match (prop, p.mode) {
        ("C06", _) => "runs: alone, repeated, interleaved and preempted",
        (_, Mode::Solo) => "runs: one session",
        (_, Mode::Coop) => "runs: sessions interleaved",
        (_, Mode::Threads) => "runs: sessions preempted",
    };
    out.stats.add(name, 1);
    let mut sched = tapes.get("sched");
    let mut extra: Option<Viol> = None;
    let ds = match p.mode {
        _ if prop == "C06" => {
            let a = solo(&p, tapes, true, 0);
            let again = solo(&p, tapes, true, 1);
            let (b, h) = coop(&p, tapes, true, &mut sched);
            out.tapes.put("sched", &sched);
            out.stats.schedules.insert(h);
            let ts = tapes.get("threads");
            let (c, st) = threads(&p, tapes, true, ts);
            out.tapes.put("threads", &st.tape);
            out.stats.add("thread switches", st.switches);
            if st.rescued {
                out.rescued = true;
                out.stats.add("runs abandoned: library waited on a parked thread", 1);
            } else {
                out.stats.schedules.insert(st.hash);
            }
            extra = compare(prop, &a, &again, "when repeated")
                .or_else(|| compare(prop, &a, &b, "interleaved"))
                .or_else(|| if out.rescued { None } else { compare(prop, &a, &c, "preempted") });
            a
        }
        Mode::Solo => solo(&p, tapes, keep, 0),
        Mode::Coop => {
            let (r, h) = coop(&p, tapes, keep, &mut sched);
            out.tapes.put("sched", &sched);
            out.stats.schedules.insert(h);
            r
        }
        Mode::Threads => {
            let (r, st) = threads(&p, tapes, keep, sched);
            out.tapes.put("sched", &st.tape);
            out.stats.add("thread switches", st.switches);
            if st.rescued {
                out.rescued = true;
                out.stats.add("runs abandoned: library waited on a parked thread", 1);
            } else {
                out.stats.schedules.insert(st.hash);
            }
            r
        }
    };
    sim::forget_sources();
    let mut viols = Vec::new();
    for d in ds {
        out.tapes.put(&format!("work{}", d.ix), &d.work);
        out.tapes.put(&format!("fault{}", d.ix), &d.fault);
        out.steps += d.steps;
        out.hash = hash_bytes(out.hash ^ d.hash, &(d.log.len() as u64).to_le_bytes());
        for l in d.log {
            out.log.push(format!("s{}| {l}", d.ix));
        }
        out.stats.merge(d.stats);
        viols.extend(d.viol);
    }
    out.hash = hash_bytes(out.hash, &out.steps.to_le_bytes());
    viols.extend(extra);
    if !out.rescued || prop == "C06" {
        out.viol = viols.into_iter().find(|v| v.props.contains(&prop));
    }
    out
}

pub fn seed_of(seed: u64, prop: &str, i: u64) -> u64 {
    hash_bytes(seed.wrapping_mul(0x9E37_79B9).wrapping_add(i), prop.as_bytes())
}

/// A session with nothing around it, always the same.
pub fn probe(i: u64) -> (u64, Vec<String>) {
    let tapes = Tapes::fresh(hash_bytes(i, b"probe"));
    let mut t = tapes.get("config");
    let mut p = plan("C06", &mut t);
    p.sessions.truncate(1);
    let d = solo(&p, &tapes, true, 4).pop().unwrap();
    sim::forget_sources();
    (d.hash, d.log)
}

/// Shows what the generator makes: one declaration per line.
pub fn dump(n: u64) -> i32 {
    for i in 0..n {
        let tapes = Tapes::fresh(hash_bytes(i, b"dump"));
        let mut t = tapes.get("config");
        let cfg = cfg("C01", &mut t);
        let mut c = Core::new(&cfg, &tapes, 0, false);
        let d = crate::doc::make(
            &mut c,
            Opts {
                max_items: 4,
                ..Opts::default()
            },
        );
        for p in &d.parts {
            let s = crate::tok::to_stream(&d.toks[p.from..p.to]).to_string();
            println!("{}", s.replace('\n', " "));
        }
    }
    0
}
