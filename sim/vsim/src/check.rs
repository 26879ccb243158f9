//! The parent of a check: starts workers, watches them, confirms and minimises
//! what they find, and writes the evidence.

use crate::known;
use crate::run::seed_of;
use crate::sched::EXIT_MEMORY;
use crate::tape::{self, Tapes};
use crate::worker::{Kind, Replay, EXIT_VIOLATION};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// A run that takes longer than this has stopped making progress.
const STUCK: Duration = Duration::from_secs(25);

fn runs(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C01" | "C02" | "C03" => 110_000,
        "C04" => 100_000,
        "C05" => 180_000,
        "C06" => 25_000,
        "C07" => 240_000,
        "C08" | "C09" | "C11" => 80_000,
        "C10" => 140_000,
        "C12" => 50_000,
        "C13" => 260_000,
        "C14" => 220_000,
        _ => 70_000,
    };
    if tier == "thorough" {
        quick * 20
    } else {
        quick
    }
}

struct W {
    child: Child,
    first: u64,
    at: Arc<AtomicU64>,
    moved: Arc<Mutex<Instant>>,
    found: Arc<Mutex<Option<(u64, String)>>>,
    ended: Arc<AtomicBool>,
    over: bool,
}

/// How a child that ran one replay ended.
#[derive(Clone, Debug)]
enum End {
    Quiet,
    Violation { class: String, text: String },
    Harness(String),
}

fn fatal_class(prop: &str, what: &str) -> String {
    format!("{prop}: {what}")
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn run_once(r: &Replay, path: &str, env: &[(&str, &str)], limit: Duration) -> End {
    r.write(path);
    let mut cmd = Command::new(exe());
    cmd.args(["once", path]).stdout(Stdio::piped()).stderr(Stdio::null());
    for (k, v) in env {
        cmd.env(k, v);
    }
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return End::Harness(e.to_string()),
    };
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break Some(st),
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 20 { 1 } else { 5 }));
            }
            Err(e) => return End::Harness(e.to_string()),
        }
    };
    let s = rd.join().unwrap_or_default();
    let Some(st) = st else {
        return End::Violation {
            class: fatal_class(&r.prop, "does not end"),
            text: format!("no end within {} s", limit.as_secs()),
        };
    };
    match st.code() {
        Some(0) => End::Quiet,
        Some(EXIT_VIOLATION) => {
            let class = s.lines().find_map(|l| l.strip_prefix("class ")).unwrap_or("?").to_string();
            let text: Vec<&str> = s.lines().filter_map(|l| l.strip_prefix("text ")).collect();
            End::Violation {
                class,
                text: text.join("\n"),
            }
        }
        Some(EXIT_MEMORY) => End::Violation {
            class: fatal_class(&r.prop, "memory grows without bound"),
            text: "the memory budget of a run was exceeded".into(),
        },
        Some(c) => End::Harness(format!("exit status {c}: {s}")),
        None => {
            use std::os::unix::process::ExitStatusExt;
            let sig = st.signal().unwrap_or(0);
            if sig == 9 {
                return End::Harness("killed".into());
            }
            End::Violation {
                class: fatal_class(&r.prop, "process killed"),
                text: format!("the process was ended by signal {sig} (stack overflow or abort)"),
            }
        }
    }
}

/// Makes the tapes smaller as long as the same kind of violation stays.
fn shrink(mut best: Replay, dir: &str, budget: Duration, limit: Duration) -> (Replay, u64) {
    let t0 = Instant::now();
    let tries = AtomicU64::new(0);
    let class = best.class.clone();
    let attempt = |cands: Vec<Tapes>, best: &mut Replay| -> Option<usize> {
        // candidates are tried in parallel; the first in order that works is taken
        let res: Vec<Option<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = cands
                .iter()
                .enumerate()
                .map(|(k, t)| {
                    let r = Replay {
                        kind: Kind::Tapes(t.clone()),
                        ..best.clone()
                    };
                    let class = &class;
                    let tries = &tries;
                    s.spawn(move || {
                        tries.fetch_add(1, Relaxed);
                        match run_once(&r, &format!("{dir}/try{k}"), &[], limit) {
                            End::Violation { class: c, text } if c == *class => Some(text),
                            _ => None,
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let k = res.iter().position(|r| r.is_some())?;
        best.kind = Kind::Tapes(cands[k].clone());
        best.text = res[k].clone().unwrap();
        Some(k)
    };
    let get = |b: &Replay| match &b.kind {
        Kind::Tapes(t) => t.clone(),
        _ => unreachable!(),
    };
    let over = || t0.elapsed() > budget;
    loop {
        let mut progress = false;
        // whole tapes, then blocks, then numbers
        let names: Vec<String> = get(&best).data.keys().cloned().collect();
        for n in &names {
            let mut size = get(&best).data[n].len();
            while size >= 1 && !over() {
                let mut at = 0;
                while !over() {
                    let t = get(&best);
                    let len = t.data[n].len();
                    if at >= len {
                        break;
                    }
                    let mut cands = Vec::new();
                    let mut k = at;
                    while cands.len() < 8 && k < len {
                        let end = (k + size).min(len);
                        let mut a = t.clone();
                        a.data.get_mut(n).unwrap().drain(k..end);
                        cands.push(a);
                        if t.data[n][k..end].iter().any(|x| *x != 0) {
                            let mut z = t.clone();
                            z.data.get_mut(n).unwrap()[k..end].fill(0);
                            cands.push(z);
                        }
                        k = end;
                    }
                    match attempt(cands, &mut best) {
                        Some(_) => progress = true,
                        None => at = k,
                    }
                }
                size /= 2;
            }
            // numbers towards zero
            let mut i = 0;
            while !over() && i < get(&best).data[n].len() {
                let t = get(&best);
                let v = t.data[n][i];
                let mut cands = Vec::new();
                for x in [v / 2, v.saturating_sub(1)] {
                    if x < v && x > 0 {
                        let mut a = t.clone();
                        a.data.get_mut(n).unwrap()[i] = x;
                        cands.push(a);
                    }
                }
                if cands.is_empty() || attempt(cands, &mut best).is_none() {
                    i += 1;
                } else {
                    progress = true;
                }
            }
        }
        if !progress || over() {
            break;
        }
    }
    (best, tries.load(Relaxed))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Sum {
    n: BTreeMap<String, u64>,
    max: BTreeMap<String, u64>,
    shapes: HashSet<u64>,
    scheds: HashSet<u64>,
    runs: HashSet<u64>,
    samples: Vec<String>,
}

fn load(sum: &mut Sum, path: &str) {
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let w: Vec<&str> = l.splitn(3, '\t').collect();
        let hex = |s: &str| u64::from_str_radix(s, 16).unwrap_or(0);
        match w[0] {
            "n" => *sum.n.entry(w[1].into()).or_default() += w[2].parse::<u64>().unwrap_or(0),
            "m" => {
                let e = sum.max.entry(w[1].into()).or_default();
                *e = (*e).max(w[2].parse().unwrap_or(0));
            }
            "h" => drop(sum.shapes.insert(hex(w[1]))),
            "s" => drop(sum.scheds.insert(hex(w[1]))),
            "r" => drop(sum.runs.insert(hex(w[1]))),
            "x" => sum.samples.push(l[2..].replace("\\n", "\n").replace("\\\\", "\\")),
            _ => (),
        }
    }
}

fn obj(m: &BTreeMap<String, u64>, pre: &str) -> String {
    let v: Vec<String> = m
        .iter()
        .filter(|(k, _)| k.starts_with(pre))
        .map(|(k, v)| format!("{}: {v}", js(k[pre.len()..].trim())))
        .collect();
    format!("{{{}}}", v.join(", "))
}

const PREFIXES: [&str; 6] = ["fault:", "operations:", "sessions:", "runs:", "+", "known:"];

#[allow(clippy::too_many_arguments)]
fn evidence(root: &str, prop: &str, tier: &str, seed: u64, sum: &Sum, wall: f64, search: f64, viols: u64) {
    let runs = sum.n.get("+runs").copied().unwrap_or(0);
    let steps = sum.n.get("+steps").copied().unwrap_or(0);
    let other: BTreeMap<String, u64> = sum
        .n
        .iter()
        .filter(|(k, _)| !PREFIXES.iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let per_hour = (runs as f64 / search.max(0.001) * 3600.0) as u64;
    let mut samples = sum.samples.clone();
    samples.sort();
    samples.truncate(3);
    let samples: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let s = format!(
        r#"{{
 "property": {p},
 "tier": {tier},
 "seed": {seed},
 "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {distinct},
  "rule": "One evaluation is one simulated run: seed, property and run index decide the configuration, the sessions with their inputs and operation histories, the faults and the schedule. A run is non-trivial if its sessions made at least 3 calls into the library; two runs are distinct if any choice on any of their tapes differs.",
  "runs_per_hour": {per_hour},
  "simulated_time_token_operations": {steps},
  "token_operations_by_kind": {ops},
  "distinct_schedules": {scheds},
  "schedule_measure": "hash of the sequence of sessions chosen, and of the operation at which each preemption fell",
  "distinct_declaration_shapes": {shapes},
  "shape_measure": "hash of the structure of a generated declaration without its spellings and locations",
  "runs_by_kind": {kinds},
  "sessions_by_kind": {sess},
  "faults_injected": {faults},
  "counters": {other},
  "maxima": {maxima},
  "known_findings_met": {kn},
  "real_components": ["all of venial, built from /repo's working tree", "quote", "proc-macro2's token streams, spacing, printing and lexer"],
  "simulated_components": ["the token server of the compiler: proc-macro2's entry points with a scheduling, counting and failing hook", "spans and Span::join", "thread scheduler", "random bytes of the operating system"],
  "samples": [{samples}]
 }},
 "assumptions": ["the generator's model of declarations and the reference models in /verif/sim/vsim/src state what the properties mean", "proc-macro2's fallback token streams behave like the compiler's, apart from the varied spacing, spans and failures"],
 "wall_s": {wall:.2},
 "violations": {viols}
}}
"#,
        p = js(prop),
        tier = js(tier),
        distinct = sum.runs.len(),
        ops = obj(&sum.n, "operations:"),
        scheds = sum.scheds.len(),
        shapes = sum.shapes.len(),
        kinds = obj(&sum.n, "runs:"),
        sess = obj(&sum.n, "sessions:"),
        faults = obj(&sum.n, "fault:"),
        other = obj(&other, ""),
        maxima = obj(&sum.max, ""),
        kn = obj(&sum.n, "known:"),
        samples = samples.join(", "),
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{prop}.json"), s) {
        eprintln!("evidence: {e}");
    }
}

pub fn check(root: &str, prop: &str) -> i32 {
    let t0 = Instant::now();
    let var = |k: &str| std::env::var(k).ok();
    let seed: u64 = var("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match var("VERIF_TIER").as_deref() {
        Some("thorough") => "thorough",
        _ => "quick",
    };
    let total = var("VSIM_RUNS").and_then(|s| s.parse().ok()).unwrap_or_else(|| runs(prop, tier));
    let secs: u64 = var("VSIM_SECS")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 780 } else { 240 });
    let dir = format!("{root}/target/work/{prop}-{}", std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();

    let mut ws: Vec<W> = Vec::new();
    for w in 0..WORKERS {
        let mut ch = Command::new(exe())
            .args([
                "worker",
                prop,
                &seed.to_string(),
                &w.to_string(),
                &WORKERS.to_string(),
                &total.to_string(),
                &secs.to_string(),
                &dir,
            ])
            .stdout(Stdio::piped())
            .spawn()
            .unwrap();
        let so = ch.stdout.take().unwrap();
        let at = Arc::new(AtomicU64::new(u64::MAX));
        let moved = Arc::new(Mutex::new(Instant::now()));
        let found = Arc::new(Mutex::new(None));
        let ended = Arc::new(AtomicBool::new(false));
        {
            let (at, moved, found, ended) = (at.clone(), moved.clone(), found.clone(), ended.clone());
            std::thread::spawn(move || {
                for l in BufReader::new(so).lines() {
                    let Ok(l) = l else { break };
                    *moved.lock().unwrap() = Instant::now();
                    if let Some(x) = l.strip_prefix("at ") {
                        at.store(x.parse().unwrap_or(0), Relaxed);
                    } else if let Some(x) = l.strip_prefix("found ") {
                        let (i, c) = x.split_once(' ').unwrap_or((x, ""));
                        *found.lock().unwrap() = Some((i.parse().unwrap_or(0), c.to_string()));
                    } else if l == "end" {
                        ended.store(true, Relaxed);
                    }
                }
            });
        }
        ws.push(W {
            child: ch,
            first: w,
            at,
            moved,
            found,
            ended,
            over: false,
        });
    }

    // (run, class, worker)
    let mut suspects: Vec<(u64, String, u64)> = Vec::new();
    let mut trouble = Vec::new();
    loop {
        let mut live = 0;
        for w in &mut ws {
            if w.over {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.over = true;
                    std::thread::sleep(Duration::from_millis(30));
                    let i = w.at.load(Relaxed);
                    if w.ended.load(Relaxed) {
                        if let Some((i, c)) = w.found.lock().unwrap().clone() {
                            suspects.push((i, c, w.first));
                        }
                    } else if st.code() == Some(EXIT_MEMORY) {
                        suspects.push((i, fatal_class(prop, "memory grows without bound"), w.first));
                    } else if st.code().is_none() {
                        suspects.push((i, fatal_class(prop, "process killed"), w.first));
                    } else {
                        trouble.push(format!("worker {} ended with {st} in run {i}", w.first));
                    }
                }
                Ok(None) => {
                    live += 1;
                    if w.moved.lock().unwrap().elapsed() > STUCK {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.over = true;
                        suspects.push((w.at.load(Relaxed), fatal_class(prop, "does not end"), w.first));
                    }
                }
                Err(e) => trouble.push(e.to_string()),
            }
        }
        if live == 0 {
            break;
        }
        if !suspects.is_empty() || !trouble.is_empty() {
            // the others stop as well
            std::thread::sleep(Duration::from_millis(300));
            for w in &mut ws {
                if !w.over {
                    if let Ok(Some(_)) = w.child.try_wait() {
                        if let Some((i, c)) = w.found.lock().unwrap().clone() {
                            suspects.push((i, c, w.first));
                        }
                    }
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    w.over = true;
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search = t0.elapsed().as_secs_f64();
    let mut sum = Sum::default();
    for w in 0..WORKERS {
        load(&mut sum, &format!("{dir}/stats{w}"));
    }

    suspects.sort();
    let mut verdict = None;
    for (i, class, w) in suspects.iter().take(3) {
        match confirm(prop, seed, *i, *w, class, &dir) {
            Ok(Some(r)) => {
                verdict = Some(r);
                break;
            }
            Ok(None) => trouble.push(format!("run {i} ({class}) could not be reproduced")),
            Err(e) => trouble.push(e),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(root, prop, tier, seed, &sum, wall, search, verdict.is_some() as u64);
    let code = match verdict {
        Some(r) => {
            let rd = format!("{root}/replays");
            let _ = std::fs::create_dir_all(&rd);
            let path = format!("{rd}/{prop}-{seed}.replay");
            r.write(&path);
            println!("{}: {}\n{}", prop, r.class, r.text);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None if !trouble.is_empty() => {
            for t in &trouble {
                eprintln!("harness: {t}");
            }
            2
        }
        None => {
            for k in known::all().iter().filter(|k| k.property == prop) {
                let met = sum.n.get(&format!("known: {}", k.id)).copied().unwrap_or(0);
                if met > 0 {
                    println!("KNOWN-FINDING: property={prop} {}", k.text);
                }
            }
            println!(
                "{prop}: held in {} runs ({} token operations, {} schedules, {} shapes) in {:.1} s",
                sum.n.get("+runs").copied().unwrap_or(0),
                sum.n.get("+steps").copied().unwrap_or(0),
                sum.scheds.len(),
                sum.shapes.len(),
                wall
            );
            0
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Reproduces a suspected violation in a process of its own and makes it small.
fn confirm(prop: &str, seed: u64, i: u64, w: u64, class: &str, dir: &str) -> Result<Option<Replay>, String> {
    let limit = STUCK;
    let mut r = Replay {
        prop: prop.into(),
        class: class.into(),
        kind: Kind::Seed(seed_of(seed, prop, i)),
        text: String::new(),
    };
    let tapes = format!("{dir}/tapes");
    let out = run_once(&r, &format!("{dir}/once"), &[("VSIM_OUT", &tapes)], limit);
    if let End::Violation { class: c, text } = out {
        r.class = c;
        r.text = text;
        let fatal = r.class.starts_with(prop);
        let t = if fatal {
            let j = format!("{dir}/journal");
            run_once(&r, &format!("{dir}/once"), &[("VSIM_JOURNAL", &j)], limit);
            Some(tape::from_journal(&j))
        } else {
            Replay::read(&tapes).and_then(|r| match r.kind {
                Kind::Tapes(t) => Some(t),
                _ => None,
            })
        };
        if let Some(t) = t {
            let slow = r.class.ends_with("does not end");
            let lim = if slow { Duration::from_secs(3) } else { Duration::from_secs(10) };
            let mut q = r.clone();
            q.kind = Kind::Tapes(t);
            if let End::Violation { class, text } = run_once(&q, &format!("{dir}/once"), &[], limit) {
                if class == r.class {
                    q.text = text;
                    let (best, tries) = shrink(q, dir, Duration::from_secs(25), lim);
                    // what is reported is what the file gives
                    if let End::Violation { class, text } = run_once(&best, &format!("{dir}/once"), &[], limit) {
                        if class == best.class {
                            let mut best = best;
                            best.text = format!("{text}\n(run {i} of seed {seed}, minimised in {tries} attempts)");
                            return Ok(Some(best));
                        }
                    }
                }
            }
        }
        return Ok(Some(r));
    }
    if let End::Harness(e) = out {
        return Err(e);
    }
    // alone it does not happen: with what ran before it in that process
    let mut back = 1;
    loop {
        let from = w.max(i.saturating_sub(back * WORKERS));
        r.kind = Kind::History {
            seed,
            from,
            to: i,
            step: WORKERS,
        };
        if let End::Violation { class: c, text } = run_once(&r, &format!("{dir}/once"), &[], Duration::from_secs(240)) {
            r.class = c;
            r.text = format!("{text}\n(runs {from} to {i} of one process)");
            return Ok(Some(r));
        }
        if from == w {
            return Ok(None);
        }
        back *= 4;
    }
}
