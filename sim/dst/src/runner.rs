//! Runs seeds in worker processes, judges, minimises, writes evidence.
use crate::alloc;
use crate::ctx::{Ctx, Verdict, Violation};
use crate::prng::{hash_str, mix2};
use crate::sched;
use crate::syms;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
    /// Runs per worker process: one process is one history.
    pub chunk: u64,
    /// Every third chunk is split into processes of so few runs (0: none), so
    /// that state kept per process is often met fresh.
    pub cold: u64,
    /// What a case is and what makes it non-trivial.
    pub rule: &'static str,
    /// What ran real and what was replaced.
    pub real: &'static str,
    pub stub: &'static str,
}

/// Violations of the engine itself, outside any run.
static OUT: Mutex<Option<PathBuf>> = Mutex::new(None);
static CURRENT: AtomicUsize = AtomicUsize::new(0);
/// The run under way, for `fatal` to report its choices.
static RUNNING: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());

fn tape_line(c: &Ctx) -> String {
    let mut t = String::from("TAPE");
    for v in c.tape.iter().take(c.pos.max(1)) {
        t += &format!(" {}", v);
    }
    t
}

/// End the process because the run can neither go on nor unwind.
pub fn fatal(class: &str, msg: &str) -> ! {
    let line = format!("V {} {} {}\n", CURRENT.load(Ordering::SeqCst), class, msg);
    match OUT.try_lock() {
        Ok(g) => {
            if let Some(p) = g.as_ref() {
                if let Ok(mut f) = fs::OpenOptions::new().append(true).create(true).open(p) {
                    let _ = f.write_all(line.as_bytes());
                }
            } else {
                let c = RUNNING.load(Ordering::SeqCst);
                if !c.is_null() {
                    println!("{}", tape_line(unsafe { &*c }));
                }
                print!("OUTCOME violation {} :: {}\n", class, msg);
                let _ = std::io::stdout().flush();
            }
        }
        Err(_) => {}
    }
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(70) }
}

fn run_one(p: &Prop, c: &mut Ctx) -> Verdict {
    alloc::PATTERN.store(0, Ordering::SeqCst);
    sched::HASH_SEED.store(1, Ordering::SeqCst);
    crate::syms::CLOCK_STEP.store(1_000, Ordering::SeqCst);
    crate::syms::CPUS.store(0, Ordering::SeqCst);
    RUNNING.store(c, Ordering::SeqCst);
    let r = sched::as_task(|| (p.run)(c));
    RUNNING.store(std::ptr::null_mut(), Ordering::SeqCst);
    alloc::PATTERN.store(0, Ordering::SeqCst);
    if let Err(v) = &r {
        c.see(hash_str(&v.class));
    }
    r
}

/// Every other chunk runs all its cases on one thread, so that anything kept
/// per thread is carried from one to the next; the others use fresh threads.
fn run_placed(p: &Prop, c: &mut Ctx, fresh: bool) -> Verdict {
    if fresh {
        std::thread::scope(|s| s.spawn(|| run_one(p, c)).join().expect("run thread"))
    } else {
        run_one(p, c)
    }
}

pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix2(mix2(seed, hash_str(id)), i)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

fn worker(p: &Prop, seed: u64, start: u64, end: u64, fresh: bool, thorough: bool, out: &str) {
    *OUT.lock().unwrap() = Some(PathBuf::from(out));
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    let mut ev = 0u64;
    let mut evals = 0u64;
    let mut samples = Vec::new();
    let cur = fs::OpenOptions::new().write(true).create(true).truncate(true).open(format!("{}.cur", out)).unwrap();
    use std::os::unix::fs::FileExt;
    let mut text = String::new();
    for i in start..end {
        CURRENT.store(i as usize, Ordering::SeqCst);
        let _ = cur.write_all_at(format!("{:020}", i).as_bytes(), 0);
        let mut c = Ctx::from_seed(run_seed(seed, p.id, i), thorough);
        let r = run_placed(p, &mut c, fresh);
        evals += 1;
        ev = mix2(ev, c.event);
        for (k, v) in &c.counts {
            *counts.entry(k.to_string()).or_insert(0) += v;
        }
        if c.nontrivial {
            sigs.insert(mix2(c.sig, 0));
        }
        inter.extend(c.inter.iter().cloned());
        if let Some(s) = c.sample.take() {
            if samples.len() < 2 {
                samples.push(format!("run {}: {}", i, s));
            }
        }
        if let Err(v) = r {
            text += &format!("V {} {} {}\n", i, v.class, esc(&v.msg));
            break;
        }
    }
    counts.insert("sim.steps".into(), sched::STEPS.load(Ordering::SeqCst));
    counts.insert("sim.words_drawn".into(), sched::WORDS.load(Ordering::SeqCst));
    counts.insert("fault.junk_filled_allocations".into(), alloc::JUNKED.load(Ordering::SeqCst));
    text += &format!("N {}\nE {:x}\n", evals, ev);
    for (k, v) in &counts {
        text += &format!("C {} {}\n", k, v);
    }
    for s in &samples {
        text += &format!("S {}\n", esc(s));
    }
    let (_, total) = syms::cov_count();
    text += &format!("G {}\n", total);
    let mut g = String::new();
    for i in 0..1usize << 17 {
        if unsafe { *(&raw const syms::COV as *const u8).add(i) } != 0 {
            g += &format!("{:x} ", i);
        }
    }
    text += &format!("B {}\n", g);
    text += "H ";
    for s in &sigs {
        text += &format!("{:x} ", s);
    }
    text += "\nI ";
    for s in &inter {
        text += &format!("{:x} ", s);
    }
    text += "\nEND\n";
    let mut f = fs::OpenOptions::new().append(true).create(true).open(out).unwrap();
    f.write_all(text.as_bytes()).unwrap();
}

#[derive(Clone, Debug)]
enum Entry {
    Seed(u64),
    Tape(Vec<u64>),
}

#[derive(Clone, Debug)]
struct Replay {
    id: String,
    fresh: bool,
    thorough: bool,
    class: String,
    runs: Vec<Entry>,
}

impl Replay {
    fn text(&self) -> String {
        let mut s = format!(
            "property {}\nclass {}\nfresh {}\nthorough {}\n",
            self.id, self.class, self.fresh, self.thorough
        );
        for r in &self.runs {
            match r {
                Entry::Seed(x) => s += &format!("seed {}\n", x),
                Entry::Tape(t) => {
                    s += "tape";
                    for v in t {
                        s += &format!(" {}", v);
                    }
                    s += "\n";
                }
            }
        }
        s
    }
    fn parse(text: &str) -> Option<Replay> {
        let mut r = Replay { id: String::new(), fresh: false, thorough: false, class: String::new(), runs: vec![] };
        for l in text.lines() {
            let mut w = l.splitn(2, ' ');
            let k = w.next()?;
            let v = w.next().unwrap_or("").trim();
            match k {
                "property" => r.id = v.into(),
                "class" => r.class = v.into(),
                "fresh" => r.fresh = v == "true",
                "thorough" => r.thorough = v == "true",
                "seed" => r.runs.push(Entry::Seed(v.parse().ok()?)),
                "tape" => r.runs.push(Entry::Tape(v.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect())),
                _ => {}
            }
        }
        if r.id.is_empty() || r.runs.is_empty() { None } else { Some(r) }
    }
}

fn exec(props: &[Prop], file: &str, verbose: bool) -> i32 {
    let r = match Replay::parse(&fs::read_to_string(file).expect("replay file")) {
        Some(r) => r,
        None => {
            println!("ERROR malformed replay file");
            return 2;
        }
    };
    let p = match props.iter().find(|p| p.id == r.id) {
        Some(p) => p,
        None => {
            println!("ERROR no property {}", r.id);
            return 2;
        }
    };
    let n = r.runs.len();
    let mut last: Verdict = Ok(());
    for (i, e) in r.runs.iter().enumerate() {
        let mut c = match e {
            Entry::Seed(s) => Ctx::from_seed(*s, r.thorough),
            Entry::Tape(t) => Ctx::from_tape(t.clone(), r.thorough),
        };
        c.verbose = verbose && i + 1 == n;
        last = run_placed(p, &mut c, r.fresh);
        if i + 1 == n {
            println!("{}", tape_line(&c));
            println!("EVENT {:x}", c.event);
        } else if last.is_err() {
            // an earlier run of the history already fails
            break;
        }
    }
    match last {
        Ok(()) => {
            println!("OUTCOME ok");
            0
        }
        Err(v) => {
            println!("OUTCOME violation {} :: {}", v.class, v.msg);
            1
        }
    }
}

struct Ran {
    class: Option<String>,
    msg: String,
    tape: Vec<u64>,
    log: Vec<String>,
}

fn wait_limit(ch: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = 1;
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(10);
    }
}

fn exec_child(r: &Replay, dir: &Path, verbose: bool) -> Ran {
    let f = dir.join("cand.replay");
    fs::write(&f, r.text()).unwrap();
    let outp = dir.join("cand.out");
    let out = fs::File::create(&outp).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg(if verbose { "explain" } else { "exec" })
        .arg(&f)
        .stdout(out)
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let st = wait_limit(&mut ch, Duration::from_secs(120));
    let text = String::from_utf8_lossy(&fs::read(&outp).unwrap_or_default()).to_string();
    let mut ran = Ran { class: None, msg: String::new(), tape: vec![], log: vec![] };
    let mut seen = false;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("LOG ") {
            ran.log.push(x.to_string());
        } else if let Some(x) = l.strip_prefix("TAPE") {
            ran.tape = x.split_whitespace().filter_map(|v| v.parse().ok()).collect();
        } else if l == "OUTCOME ok" {
            seen = true;
        } else if let Some(x) = l.strip_prefix("OUTCOME violation ") {
            let mut w = x.splitn(2, " :: ");
            ran.class = Some(w.next().unwrap_or("").to_string());
            ran.msg = w.next().unwrap_or("").to_string();
            seen = true;
        }
    }
    if !seen {
        match st {
            Some(s) => {
                if let Some(sig) = s.signal() {
                    ran.class = Some(format!("crash-signal-{}", sig));
                    ran.msg = format!("the process was ended by signal {} inside the code under test", sig);
                } else {
                    ran.class = Some(format!("crash-exit-{}", s.code().unwrap_or(-1)));
                    ran.msg = "the process ended in the middle of the run".into();
                }
            }
            None => {}
        }
    }
    ran
}

/// Find a short history and tape with the same violation.
fn minimise(p: &Prop, seed: u64, start: u64, run: u64, fresh: bool, thorough: bool, class: &str, dir: &Path) -> Option<(Replay, Ran)> {
    let seeds: Vec<Entry> = (start..=run).map(|i| Entry::Seed(run_seed(seed, p.id, i))).collect();
    let mk = |runs: Vec<Entry>| Replay { id: p.id.into(), fresh, thorough, class: class.into(), runs };
    let same = |r: &Ran| r.class.as_deref() == Some(class);
    let t0 = Instant::now();
    let mut budget = 1500;
    let mut best = mk(vec![seeds.last().unwrap().clone()]);
    let mut got = exec_child(&best, dir, false);
    if !same(&got) {
        best = mk(seeds.clone());
        got = exec_child(&best, dir, false);
        if !same(&got) {
            return None;
        }
        // drop parts of the history
        let mut size = (best.runs.len() - 1) / 2;
        while size >= 1 && budget > 100 && t0.elapsed() < Duration::from_secs(60) {
            let mut i = 0;
            let mut any = false;
            while i + size < best.runs.len() && budget > 100 && t0.elapsed() < Duration::from_secs(60) {
                let mut runs = best.runs.clone();
                runs.drain(i..i + size);
                let cand = mk(runs);
                budget -= 1;
                let r = exec_child(&cand, dir, false);
                if same(&r) {
                    best = cand;
                    got = r;
                    any = true;
                } else {
                    i += size;
                }
            }
            if !any || size == 1 {
                size /= 2;
            }
        }
    }
    // turn the last run into a tape
    let tape = got.tape.clone();
    let hist: Vec<Entry> = best.runs[..best.runs.len() - 1].to_vec();
    let with = |t: &Vec<u64>| {
        let mut r = hist.clone();
        r.push(Entry::Tape(t.clone()));
        mk(r)
    };
    if tape.is_empty() {
        let e = exec_child(&best, dir, true);
        return if same(&e) { Some((best, e)) } else { None };
    }
    let mut cur = tape;
    let r = exec_child(&with(&cur), dir, false);
    if !same(&r) {
        let e = exec_child(&best, dir, true);
        return if same(&e) { Some((best, e)) } else { None };
    }
    let mut changed = true;
    while changed && budget > 0 && t0.elapsed() < Duration::from_secs(120) {
        changed = false;
        let mut cands: Vec<Vec<u64>> = Vec::new();
        for cut in [cur.len() / 2, cur.len() * 3 / 4, cur.len().saturating_sub(1)] {
            if cut < cur.len() {
                cands.push(cur[..cut].to_vec());
            }
        }
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= cur.len() {
                if size > 2 || cur.len() <= 60 {
                    let mut t = cur.clone();
                    t.drain(i..i + size);
                    cands.push(t);
                }
                if cur[i..i + size].iter().any(|v| *v != 0) {
                    let mut t = cur.clone();
                    for v in &mut t[i..i + size] {
                        *v = 0;
                    }
                    cands.push(t);
                }
                i += size;
            }
        }
        for i in 0..cur.len().min(200) {
            if cur[i] > 1 {
                let mut t = cur.clone();
                t[i] /= 2;
                cands.push(t);
                let mut t = cur.clone();
                t[i] -= 1;
                cands.push(t);
            }
        }
        let orig = cur.clone();
        for t in cands {
            if t.len() != orig.len() && cur != orig && t.len() >= cur.len() {
                continue;
            }
            if budget == 0 || t0.elapsed() > Duration::from_secs(120) {
                break;
            }
            budget -= 1;
            let r = exec_child(&with(&t), dir, false);
            if same(&r) && (t.len() < cur.len() || t.iter().map(|v| *v as u128).sum::<u128>() < cur.iter().map(|v| *v as u128).sum()) {
                cur = t;
                changed = true;
                break;
            }
        }
    }
    let fin = with(&cur);
    let e = exec_child(&fin, dir, true);
    if same(&e) {
        Some((fin, e))
    } else {
        let e = exec_child(&best, dir, true);
        if same(&e) { Some((best, e)) } else { None }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

#[derive(Default)]
struct Agg {
    evals: u64,
    counts: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    inter: HashSet<u64>,
    cov: HashSet<u64>,
    guards: u64,
    samples: Vec<(u64, String)>,
    events: BTreeMap<u64, String>,
    /// chunk, run, class, msg
    bad: Vec<(u64, u64, String, String)>,
    known: BTreeSet<String>,
    errors: Vec<String>,
}

fn known_classes(root: &Path, id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(t) = fs::read_to_string(root.join("known_findings.txt")) {
        for l in t.lines() {
            let l = l.trim();
            if let Some(x) = l.strip_prefix(&format!("known: property={} class=", id)) {
                let mut w = x.splitn(2, ' ');
                let c = w.next().unwrap_or("").to_string();
                v.push((c, w.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

fn check(props: &[Prop], id: &str) -> i32 {
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            return 2;
        }
    };
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let tier = if thorough { "thorough" } else { "quick" };
    println!("seed {} property {} tier {}", seed, id, tier);
    let runs = if thorough { p.thorough } else { p.quick };
    let runs = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let dir = std::env::temp_dir().join(format!("dst-{}-{}", id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let mut chunks: Vec<(u64, u64)> = vec![];
    for s in (0..runs).step_by(p.chunk as usize) {
        let e = (s + p.chunk).min(runs);
        if p.cold > 0 && s / p.chunk % 3 == 2 {
            chunks.extend((s..e).step_by(p.cold as usize).map(|s| (s, (s + p.cold).min(e))));
        } else {
            chunks.push((s, e));
        }
    }
    // A sample of the chunks is executed twice, to prove determinism.
    let again: Vec<u64> = (0..chunks.len() as u64).filter(|i| i % 13 == 0).collect();
    let jobs: Vec<(u64, bool)> = (0..chunks.len() as u64).map(|i| (i, false)).chain(again.iter().map(|i| (*i, true))).collect();
    let known = known_classes(&root, id);
    let agg = Mutex::new(Agg::default());
    let next = AtomicUsize::new(0);
    let stop_at = AtomicUsize::new(usize::MAX);
    let out_of_time = AtomicBool::new(false);
    let cap = Duration::from_secs(if thorough { 3000 } else { 600 });
    let ncpu = std::env::var("DST_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    std::thread::scope(|sc| {
        for w in 0..ncpu {
            let (agg, next, stop_at, out_of_time, jobs, chunks, dir, known) =
                (&agg, &next, &stop_at, &out_of_time, &jobs, &chunks, &dir, &known);
            sc.spawn(move || loop {
                let j = next.fetch_add(1, Ordering::SeqCst);
                if j >= jobs.len() {
                    break;
                }
                let (ci, second) = jobs[j];
                if ci as usize > stop_at.load(Ordering::SeqCst) || (second && stop_at.load(Ordering::SeqCst) != usize::MAX) {
                    continue;
                }
                if t0.elapsed() > cap {
                    out_of_time.store(true, Ordering::SeqCst);
                    break;
                }
                let (mut s, e) = chunks[ci as usize];
                // a chunk resumes after a known finding
                loop {
                    let out = dir.join(format!("w{}", w));
                    let _ = fs::remove_file(&out);
                    let mut ch = Command::new(std::env::current_exe().unwrap())
                        .args([
                            "worker",
                            p.id,
                            &seed.to_string(),
                            &s.to_string(),
                            &e.to_string(),
                            if ci % 2 == 1 { "true" } else { "false" },
                            if thorough { "true" } else { "false" },
                        ])
                        .arg(&out)
                        .stdout(Stdio::null())
                        .stderr(if std::env::var("DST_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
                        .spawn()
                        .unwrap();
                    let st = wait_limit(&mut ch, Duration::from_secs(300));
                    let text = String::from_utf8_lossy(&fs::read(&out).unwrap_or_default()).to_string();
                    let mut a = agg.lock().unwrap();
                    let mut resume = None;
                    let mut done = false;
                    let mut bad = false;
                    for l in text.lines() {
                        let (k, v) = l.split_at(l.len().min(2));
                        match k.trim() {
                            "N" if !second => a.evals += v.parse::<u64>().unwrap_or(0),
                            "E" => {
                                let key = ci * 100_000 + (s - chunks[ci as usize].0);
                                if second {
                                    if a.events.get(&key).map(|x| x != v).unwrap_or(false) {
                                        a.errors.push(format!("chunk {} is not deterministic", ci));
                                    }
                                } else {
                                    a.events.insert(key, v.to_string());
                                }
                            }
                            "C" if !second => {
                                let mut w = v.split(' ');
                                let n = w.next().unwrap_or("").to_string();
                                let x: u64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                                *a.counts.entry(n).or_insert(0) += x;
                            }
                            "S" if !second => a.samples.push((ci, v.to_string())),
                            "G" => a.guards = a.guards.max(v.parse().unwrap_or(0)),
                            "B" => a.cov.extend(v.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok())),
                            "H" => a.sigs.extend(v.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok())),
                            "I" => a.inter.extend(v.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok())),
                            "V" => {
                                let mut w = v.splitn(3, ' ');
                                let run: u64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                                let class = w.next().unwrap_or("").to_string();
                                let msg = w.next().unwrap_or("").to_string();
                                if let Some(kf) = known.iter().find(|k| k.0 == class) {
                                    a.known.insert(kf.1.clone());
                                    resume = Some(run + 1);
                                } else if !bad {
                                    bad = true;
                                    a.bad.push((ci, run, class, msg));
                                }
                            }
                            "END" => done = true,
                            _ => {
                                if l == "END" {
                                    done = true
                                }
                            }
                        }
                    }
                    if !done && !bad && resume.is_none() {
                        match st {
                            Some(x) => {
                                let run: u64 = fs::read_to_string(format!("{}.cur", out.display()))
                                    .ok()
                                    .and_then(|t| t.trim().parse().ok())
                                    .unwrap_or(s);
                                let class = match x.signal() {
                                    Some(g) => format!("crash-signal-{}", g),
                                    None => format!("crash-exit-{}", x.code().unwrap_or(-1)),
                                };
                                bad = true;
                                a.bad.push((ci, run, class, "the simulated process died inside the code under test".into()));
                            }
                            None => a.errors.push(format!("chunk {} exceeded its wall-clock limit", ci)),
                        }
                    }
                    if bad {
                        stop_at.fetch_min(ci as usize, Ordering::SeqCst);
                    }
                    match resume {
                        Some(r) if r < e && !bad => s = r,
                        _ => break,
                    }
                }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.bad.sort();
    let mut code = 0;
    let mut violations = 0;
    let mut repro_fail = Vec::new();
    for (ci, run, class, msg) in a.bad.clone() {
        println!("run {} (chunk {}): {} -- {}", run, ci, class, msg);
        let start = chunks[ci as usize].0;
        match minimise(p, seed, start, run, ci % 2 == 1, thorough, &class, &dir) {
            Some((r, e)) => {
                let rd = root.join("replays");
                let _ = fs::create_dir_all(&rd);
                let f = rd.join(format!("{}-seed{}-run{}.replay", id, seed, run));
                let mut text = r.text();
                text += &format!("# VERIF_SEED={} tier={} run={} run-seed={}\n", seed, tier, run, run_seed(seed, p.id, run));
                text += &format!("# {}: {}\n# history of {} earlier run(s) in the same process\n", class, e.msg, r.runs.len() - 1);
                for l in &e.log {
                    text += &format!("# {}\n", l);
                }
                let _ = fs::write(&f, &text);
                for l in &e.log {
                    println!("  {}", l);
                }
                println!("  {}: {}", class, e.msg);
                println!("VIOLATION property={} replay={}", id, f.display());
                violations += 1;
                code = 1;
                break;
            }
            None => repro_fail.push(format!("run {} ({}: {}) did not reproduce in a fresh process", run, class, msg)),
        }
    }
    let _ = fs::remove_dir_all(&dir);
    for k in &a.known {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    if code == 0 {
        a.errors.extend(repro_fail);
        for e in &a.errors {
            println!("ERROR {}", e);
        }
        if !a.errors.is_empty() {
            code = 2;
        }
        if out_of_time.load(Ordering::SeqCst) {
            println!("note: wall-clock cap reached, {} of {} runs executed", a.evals, runs);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    a.samples.sort();
    let mut samples: Vec<String> = a.samples.iter().take(3).map(|x| x.1.clone()).collect();
    if a.samples.len() > 6 {
        samples.push(a.samples[a.samples.len() / 2].1.clone());
        samples.push(a.samples[a.samples.len() - 1].1.clone());
    }
    let faults: Vec<String> = a
        .counts
        .iter()
        .filter(|(k, _)| k.starts_with("fault.") || k.starts_with("stream."))
        .map(|(k, v)| format!("{}: {}", jstr(k), v))
        .collect();
    let others: Vec<String> = a
        .counts
        .iter()
        .filter(|(k, _)| !(k.starts_with("fault.") || k.starts_with("stream.")))
        .map(|(k, v)| format!("{}: {}", jstr(k), v))
        .collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time\": {},\n  \"faults_fired\": {{{}}},\n  \"probes\": {{{}}},\n  \"distinct_interleavings\": {},\n  \"basic_blocks_reached\": {},\n  \"basic_blocks_instrumented\": {},\n  \"chunks_re_executed_for_determinism\": {},\n  \"real_components\": {},\n  \"stub_components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(id), jstr(tier), seed, a.evals, a.sigs.len(), jstr(p.rule),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        (a.evals as f64 / wall * 3600.0) as u64,
        (a.evals as f64 / wall * 3600.0) as u64,
        jstr(&format!("the code has no clock: time is counted in scheduling points; {} passed in this run",
            a.counts.get("sim.steps").cloned().unwrap_or(0))),
        faults.join(", "), others.join(", "), a.inter.len(), a.cov.len(), a.guards,
        again.len(), jstr(p.real), jstr(p.stub),
        jstr("a clean batch is evidence, not proof: schedules and faults are sampled"),
        wall, violations
    );
    let _ = fs::create_dir_all(root.join("evidence"));
    fs::write(root.join("evidence").join(format!("{}.json", id)), ev).expect("evidence");
    println!(
        "{} runs, {} distinct non-trivial, {} interleavings, {:.1}s, exit {}",
        a.evals, a.sigs.len(), a.inter.len(), wall, code
    );
    code
}

pub fn main(props: &[Prop]) -> ! {
    std::hint::black_box(syms::keep());
    rand::sim::install(sched::thread_word, sched::rng_opened);
    sched::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(props, &a[2]),
        Some("worker") => {
            let p = props.iter().find(|p| p.id == a[2]).expect("property");
            worker(p, a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6] == "true", a[7] == "true", &a[8]);
            0
        }
        Some("exec") => exec(props, &a[2], false),
        Some("explain") => exec(props, &a[2], true),
        Some("replay") => {
            let c = exec(props, &a[2], true);
            if c == 1 {
                if let Some(r) = Replay::parse(&fs::read_to_string(&a[2]).unwrap_or_default()) {
                    println!("VIOLATION property={} replay={}", r.id, a[2]);
                }
            }
            c
        }
        Some("one") => {
            // one <id> <seed> <run> : a single run, verbosely
            let p = props.iter().find(|p| p.id == a[2]).expect("property");
            let mut c = Ctx::from_seed(run_seed(a[3].parse().unwrap(), p.id, a[4].parse().unwrap()), false);
            c.verbose = true;
            let r = run_placed(p, &mut c, false);
            println!("{:?} {:?}\n{:?} event {:x}", c.sample, c.counts, r, c.event);
            r.is_err() as i32
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | one ID SEED RUN | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

impl From<Violation> for String {
    fn from(v: Violation) -> String {
        format!("{}: {}", v.class, v.msg)
    }
}
