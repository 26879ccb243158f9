//! A process that runs simulations, and the replay of one of them.

use crate::core::{Stats, Viol};
use crate::run::{self, Run};
use crate::tape::{self, Tapes};
use std::collections::HashSet;
use std::io::Write;
use std::time::Instant;

/// Exit status: the violation was reproduced.
pub const EXIT_VIOLATION: i32 = 10;

#[derive(Clone)]
pub enum Kind {
    /// One run, by its tapes.
    Tapes(Tapes),
    /// One run, by its seed.
    Seed(u64),
    /// Runs `from..=to` of a worker (`step` apart) of the check with this seed.
    History { seed: u64, from: u64, to: u64, step: u64 },
}

#[derive(Clone)]
pub struct Replay {
    pub prop: String,
    pub class: String,
    pub kind: Kind,
    pub text: String,
}

impl Replay {
    pub fn write(&self, path: &str) {
        let mut s = String::from("vsim-replay 1\n");
        s += &format!("property {}\n", self.prop);
        s += &format!("class {}\n", self.class);
        match &self.kind {
            Kind::Tapes(t) => {
                for (k, v) in &t.data {
                    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                    s += &format!("tape {k} {}\n", v.join(" "));
                }
            }
            Kind::Seed(x) => s += &format!("seed {x}\n"),
            Kind::History { seed, from, to, step } => s += &format!("history {seed} {from} {to} {step}\n"),
        }
        for l in self.text.lines() {
            s += &format!("# {l}\n");
        }
        let _ = std::fs::write(path, s);
    }
    pub fn read(path: &str) -> Option<Replay> {
        let s = std::fs::read_to_string(path).ok()?;
        let mut r = Replay {
            prop: String::new(),
            class: String::new(),
            kind: Kind::Seed(0),
            text: String::new(),
        };
        let mut t = Tapes {
            seed: 0,
            replay: true,
            data: Default::default(),
        };
        let mut tapes = true;
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => r.prop = v.into(),
                "class" => r.class = v.into(),
                "tape" => {
                    let mut w = v.split_whitespace();
                    let name = w.next()?.to_string();
                    t.data.insert(name, w.map(|x| x.parse().unwrap_or(0)).collect());
                }
                "seed" => {
                    r.kind = Kind::Seed(v.parse().ok()?);
                    tapes = false;
                }
                "history" => {
                    let w: Vec<u64> = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    r.kind = Kind::History {
                        seed: w[0],
                        from: w[1],
                        to: w[2],
                        step: w[3],
                    };
                    tapes = false;
                }
                _ => (),
            }
        }
        if tapes {
            r.kind = Kind::Tapes(t);
        }
        Some(r)
    }
}

// Sessions whose results are known from the start of the process, repeated later.
const PROBES: u64 = 6;

struct Probes(Vec<(u64, Vec<String>)>);

fn probe(i: u64) -> (u64, Vec<String>) {
    let r = run::probe(i);
    (r.0, r.1)
}

impl Probes {
    fn new(prop: &str) -> Probes {
        if prop != "C06" {
            return Probes(Vec::new());
        }
        Probes((0..PROBES).map(probe).collect())
    }
    fn check(&self, i: u64) -> Option<Viol> {
        if self.0.is_empty() {
            return None;
        }
        let i = i % PROBES;
        let (h, log) = probe(i);
        let (h0, log0) = &self.0[i as usize];
        if h == *h0 {
            return None;
        }
        let k = log.iter().zip(log0).position(|(a, b)| a != b);
        let k = k.unwrap_or(log.len().min(log0.len()));
        Some(Viol {
            props: vec!["C06"],
            class: "results differ after other sessions".into(),
            text: format!(
                "reference session {i}, observation {k}:\n  first: {}\n  now:   {}",
                log0.get(k).map(|s| &s[..]).unwrap_or("(nothing more)"),
                log.get(k).map(|s| &s[..]).unwrap_or("(nothing more)"),
            ),
        })
    }
}

/// The `i`th run of a worker with everything done around it, so that a history
/// of them leaves the same behind whenever it is repeated.
fn one(prop: &str, seed: u64, i: u64, step: u64, keep: bool, probes: &Probes, all: &mut Stats) -> (Run, Option<Viol>) {
    let tapes = Tapes::fresh(run::seed_of(seed, prop, i));
    let mut r = run::run(prop, &tapes, keep);
    if i % 64 == i % step && r.viol.is_none() && !r.rescued {
        // the same seed gives the same run
        let again = run::run(prop, &tapes, keep);
        all.add("runs repeated to check determinism", 1);
        if again.hash != r.hash && !again.rescued {
            all.add("runs that did not repeat", 1);
            if prop == "C06" {
                r.viol = Some(Viol {
                    props: vec!["C06"],
                    class: "results differ when the run is repeated".into(),
                    text: format!("run {i}"),
                });
            }
        }
        let mut re = again.tapes.clone();
        re.replay = true;
        let third = run::run(prop, &re, keep);
        if third.hash != r.hash && !third.rescued {
            all.add("runs that did not replay from their tapes", 1);
        }
    }
    let v = r.viol.take().or_else(|| probes.check(i));
    (r, v)
}

pub fn once(path: &str, verbose: bool) -> i32 {
    let r = match Replay::read(path) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let journal = std::env::var("VSIM_JOURNAL").ok();
    if let Some(j) = &journal {
        tape::journal(j);
    }
    let probes = Probes::new(&r.prop);
    let mut last: Option<Run> = None;
    let mut viol = None;
    match &r.kind {
        Kind::Tapes(t) => last = Some(run::run(&r.prop, t, true)),
        Kind::Seed(s) => last = Some(run::run(&r.prop, &Tapes::fresh(*s), true)),
        Kind::History { seed, from, to, step } => {
            let mut i = *from;
            while i <= *to {
                let (x, v) = one(&r.prop, *seed, i, *step, i < 3, &probes, &mut Stats::default());
                viol = v;
                last = Some(x);
                if viol.is_some() {
                    break;
                }
                i += step;
            }
        }
    }
    let last = last.unwrap();
    let mut viol = viol.or_else(|| last.viol.clone());
    for i in 0..PROBES {
        viol = viol.or_else(|| probes.check(i));
    }
    if let (Ok(out), Kind::Seed(_)) = (std::env::var("VSIM_OUT"), &r.kind) {
        Replay {
            kind: Kind::Tapes(last.tapes.clone()),
            ..r.clone()
        }
        .write(&out);
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    if verbose {
        for l in &last.log {
            let _ = writeln!(out, "{l}");
        }
    }
    match viol {
        Some(v) => {
            let _ = writeln!(out, "class {}", v.class);
            let _ = writeln!(out, "hash {:x}", last.hash);
            for l in v.text.lines() {
                let _ = writeln!(out, "text {l}");
            }
            if verbose {
                let _ = writeln!(out, "VIOLATION property={} replay={path}", r.prop);
                return 1;
            }
            EXIT_VIOLATION
        }
        None => {
            if verbose {
                let _ = writeln!(out, "not reproduced");
            }
            0
        }
    }
}

/// worker PROP SEED FIRST STEP COUNT SECONDS DIR
pub fn worker(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let n: Vec<u64> = a[1..6].iter().map(|x| x.parse().unwrap()).collect();
    let (seed, first, step, count, secs) = (n[0], n[1], n[2], n[3], n[4]);
    let dir = &a[6];
    let start = Instant::now();
    let out = std::io::stdout();
    let mut out = out.lock();
    let probes = Probes::new(&prop);
    let mut all = Stats::default();
    let mut runs = HashSet::new();
    let mut steps = 0u64;
    let mut done = 0u64;
    let mut found = None;
    let mut i = first;
    while i < count {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        let _ = writeln!(out, "at {i}");
        let keep = i < 3;
        let (mut r, v) = one(&prop, seed, i, step, keep, &probes, &mut all);
        if keep {
            let mut s = r.log.join("\n");
            if s.chars().count() > 2500 {
                s = s.chars().take(2500).collect::<String>() + "...";
            }
            all.samples.push(format!("run {i}, seed {}:\n{s}", run::seed_of(seed, &prop, i)));
        }
        done += 1;
        steps += r.steps;
        let mut h = 0;
        for (k, v) in &r.tapes.data {
            h = tape::hash_bytes(h, k.as_bytes());
            for x in v {
                h = tape::mix(h ^ *x as u64).wrapping_add(1);
            }
        }
        if r.stats.n.get("calls").copied().unwrap_or(0) >= 3 {
            runs.insert(h);
        }
        let shapes = std::mem::take(&mut r.stats.samples);
        drop(shapes);
        all.merge(r.stats);
        if let Some(v) = v {
            found = Some((i, v));
            break;
        }
        i += step;
    }
    let mut s = String::new();
    for (k, v) in &all.n {
        s += &format!("n\t{k}\t{v}\n");
    }
    for (k, v) in &all.max {
        s += &format!("m\t{k}\t{v}\n");
    }
    for (i, k) in crate::sched::kinds().iter().enumerate() {
        s += &format!("n\toperations: {}\t{k}\n", crate::sched::KIND[i]);
    }
    s += &format!("n\t+runs\t{done}\nn\t+steps\t{steps}\n");
    for (c, set) in [("h", &all.shapes), ("s", &all.schedules), ("r", &runs)] {
        for x in set.iter() {
            s += &format!("{c}\t{x:x}\n");
        }
    }
    for x in &all.samples {
        s += &format!("x\t{}\n", x.replace('\\', "\\\\").replace('\n', "\\n"));
    }
    let _ = std::fs::write(format!("{dir}/stats{first}"), s);
    if let Some((i, v)) = found {
        let _ = writeln!(out, "found {i} {}", v.class);
    }
    let _ = writeln!(out, "end");
    0
}
