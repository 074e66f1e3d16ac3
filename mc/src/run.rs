//! Driver: runs the stages of one property in a supervised child process,
//! writes the evidence file, and turns violations into replay files.
use crate::explore::*;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const QUICK: bool = false;
pub struct Prop {
    pub id: &'static str,
    /// What the states, transitions and traces counted in the evidence are.
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// Builds the stages; `thorough` selects the deeper bounds.
    pub stages: fn(thorough: bool) -> Vec<Stage>,
}

const SLOT_WORDS: usize = 256;
const MAX_SLOTS: usize = 64;
const HANG_S: u64 = 100;
/// After this time, exploration stops and what was not explored is reported.
const BUDGET_QUICK_S: u64 = 600;
const BUDGET_THOROUGH_S: u64 = 6 * 3600 - 600;
const WALL_QUICK_S: u64 = 820;
const WALL_THOROUGH_S: u64 = 6 * 3600;

/// Per-thread record of the execution in progress, in memory shared with the
/// supervising process, so that a hang or crash can be attributed to its input.
pub struct Slots {
    base: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    pub fn none() -> Slots {
        Slots { base: std::ptr::null_mut() }
    }
    fn map(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots");
        let len = MAX_SLOTS * SLOT_WORDS * 8;
        f.set_len(len as u64).expect("slots");
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Slots { base: p as *mut u64 }
    }
    fn w(&self, t: usize, i: usize) -> &AtomicU64 {
        assert!(t < MAX_SLOTS && i < SLOT_WORDS);
        unsafe { &*(self.base.add(t * SLOT_WORDS + i) as *const AtomicU64) }
    }
    /// words: 0 = executions entered, 1 = active (stage+1), 2 = prefix length, 3.. = prefix
    pub fn enter(&self, t: usize, stage: usize, prefix: &[u32]) {
        if self.base.is_null() {
            return;
        }
        let n = prefix.len().min(SLOT_WORDS - 4);
        self.w(t, 2).store(n as u64, Ordering::Relaxed);
        for (i, c) in prefix[..n].iter().enumerate() {
            self.w(t, 3 + i).store(*c as u64, Ordering::Relaxed);
        }
        self.w(t, 0).fetch_add(1, Ordering::Relaxed);
        self.w(t, 1).store(stage as u64 + 1, Ordering::Release);
    }
    pub fn leave(&self, t: usize) {
        if !self.base.is_null() {
            self.w(t, 1).store(0, Ordering::Release);
        }
    }
    fn active(&self, t: usize) -> Option<(u64, usize, Vec<u32>)> {
        let s = self.w(t, 1).load(Ordering::Acquire);
        if s == 0 {
            return None;
        }
        let n = (self.w(t, 2).load(Ordering::Relaxed) as usize).min(SLOT_WORDS - 4);
        let p = (0..n).map(|i| self.w(t, 3 + i).load(Ordering::Relaxed) as u32).collect();
        Some((self.w(t, 0).load(Ordering::Relaxed), s as usize - 1, p))
    }
}

fn verif_dir() -> String {
    std::env::var("MC_VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}
fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn fmt_choices(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn write_evidence(p: &Prop, coverage: Value, wall: f64, violations: u64) {
    let d = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let e = json!({
        "property": p.id,
        "tier": if thorough() {"thorough"} else {"quick"},
        "seed": seed(),
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let path = format!("{}/{}.json", d, p.id);
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, serde_json::to_string_pretty(&e).unwrap()).expect("write evidence");
    std::fs::rename(&tmp, &path).expect("write evidence");
}

fn write_replay(p: &Prop, stage: &str, bound: &str, choices: &[u32], msg: &str, trace: &[String]) -> String {
    let d = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{}/{}.json", d, p.id);
    let v = json!({
        "property": p.id, "stage": stage, "bound": bound, "tier": if thorough() {"thorough"} else {"quick"},
        "choices": choices, "violation": msg, "trace": trace,
        "how_to_replay": format!("cd {} && ./check.sh {} replay {}", verif_dir(), p.id, path),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    path
}

fn report_violation(p: &Prop, path: &str, stage: &str, msg: &str, trace: &[String]) {
    println!("violation of {} in stage '{}': {}", p.id, stage, msg);
    for l in trace.iter().take(60) {
        println!("    {}", l);
    }
    println!("VIOLATION property={} replay={}", p.id, path);
    let _ = std::io::stdout().flush();
}

pub fn main(p: Prop) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if args.get(1).map(|s| s == "replay").unwrap_or(false) {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let ch: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let name = v["stage"].as_str().unwrap();
        let st = (p.stages)(v["tier"] == "thorough");
        let st = st.iter().find(|s| s.name == name).expect("stage");
        let (r, log, _) = replay(st, &ch);
        for l in &log {
            println!("    {}", l);
        }
        match r {
            Ok(()) => println!("replay: no violation"),
            Err(v) => {
                println!("replay: {}", v.0);
                println!("VIOLATION property={} replay={}", p.id, args[2]);
                std::process::exit(1);
            }
        }
        return;
    }
    if let Ok(s) = std::env::var("MC_REPLAY_ONE") {
        limit_memory();
        let (si, ch) = s.split_once(':').unwrap();
        let st = (p.stages)(thorough());
        let (r, log, _) = replay(&st[si.parse::<usize>().unwrap()], &parse_choices(ch));
        if let Err(v) = r {
            println!("{}\n{}", v.0, log.join("\n"));
            std::process::exit(1);
        }
        return;
    }
    if let Ok(path) = std::env::var("MC_CHILD") {
        limit_memory();
        child(p, &path);
    } else {
        parent(p);
    }
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn child(p: Prop, slots: &str) {
    let slots = Slots::map(slots);
    let t0 = Instant::now();
    let stages = (p.stages)(thorough());
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let (mut states, mut steps, mut execs, mut outcomes, mut depth) = (0u64, 0u64, 0u64, 0u64, 0usize);
    let mut rows = vec![];
    let mut samples = vec![];
    let _ = DEADLINE.set(t0 + Duration::from_secs(budget()));
    let cut = || CUT.load(std::sync::atomic::Ordering::Relaxed);
    for (si, st) in stages.iter().enumerate() {
        if cut() {
            rows.push(json!({"stage": st.name, "bound": st.bound, "executions": 0, "complete": false}));
            continue;
        }
        let s0 = Instant::now();
        let mut end = explore(st, si, threads, &slots);
        if let StageEnd::Engine(e) = &end {
            // an execution under a busy scheduler may not have been controlled
            eprintln!("{e}; exploring the stage again");
            end = explore(st, si, threads, &slots);
        }
        match end {
            StageEnd::Complete(c, smp) => {
                states += c.states.len() as u64;
                steps += c.steps;
                execs += c.execs;
                outcomes += c.outcomes.len() as u64;
                depth = depth.max(c.max_depth);
                println!(
                    "{} {:<34} executions={} states={} transitions={} outcomes={} {:.1}s",
                    p.id, st.name, c.execs, c.states.len(), c.steps, c.outcomes.len(), s0.elapsed().as_secs_f64()
                );
                rows.push(json!({"stage": st.name, "bound": st.bound, "executions": c.execs, "states": c.states.len(),
                    "transitions": c.steps, "distinct_outcomes": c.outcomes.len(), "max_choices": c.max_depth,
                    "complete": !cut(), "wall_s": (s0.elapsed().as_secs_f64()*1000.0).round()/1000.0}));
                // replay two sample leaves with tracing; this also re-checks determinism
                for k in [smp.len() / 3, smp.len().saturating_sub(1)] {
                    if let Some(ch) = smp.get(k) {
                        let (r, log, d) = replay(st, ch);
                        if r.is_err() || d.is_some() {
                            eprintln!("{}: {}: sample does not replay identically: {:?} {:?}", p.id, st.name, r, d);
                            std::process::exit(2);
                        }
                        let log: Vec<String> = log.into_iter().take(12).map(|s| s.chars().take(400).collect()).collect();
                        samples.push(json!({"stage": st.name, "choices": ch, "trace": log}));
                    }
                }
            }
            StageEnd::Violated(f, _) => {
                slots.enter(0, si, &f.choices);
                let mut trace = vec![];
                let mut msg = f.msg.clone();
                let mut reproduced = 0;
                for _ in 0..3 {
                    let (r, log, _) = replay(st, &f.choices);
                    trace = log;
                    if let Err(v) = r {
                        reproduced += 1;
                        msg = v.0;
                    }
                }
                slots.leave(0);
                if reproduced < 3 {
                    msg = format!("{} (seen again in {} of 3 replays: the code is not deterministic here)", msg, reproduced);
                }
                let path = write_replay(&p, &st.name, &st.bound, &f.choices, &msg, &trace);
                rows.push(json!({"stage": st.name, "bound": st.bound, "complete": false}));
                write_evidence(&p, json!({"states": states, "transitions": steps, "traces_validated_against_impl": execs,
                    "samples": [{"stage": st.name, "choices": f.choices, "violation": msg, "trace": trace}], "stages": rows,
                    "exhaustive": false}), t0.elapsed().as_secs_f64(), 1);
                report_violation(&p, &path, &st.name, &msg, &trace);
                std::process::exit(1);
            }
            StageEnd::Engine(e) => {
                eprintln!("engine error: {}", e);
                std::process::exit(2);
            }
        }
    }
    write_evidence(&p, json!({
        "states": states, "transitions": steps, "traces_validated_against_impl": execs,
        "distinct_outcomes": outcomes, "max_choices_per_execution": depth, "rule": p.rule,
        "stages": rows, "samples": samples, "exhaustive": !cut(),
    }), t0.elapsed().as_secs_f64(), 0);
    if cut() {
        println!("{}: time is up; the stages marked incomplete in the evidence were not explored to their end", p.id);
    }
    println!("{}: held on all {} executions ({} states, {} transitions) in {:.1}s", p.id, execs, states, steps, t0.elapsed().as_secs_f64());
}

fn run_one(stage: usize, choices: &[u32]) -> (String, String) {
    use std::process::*;
    let out = std::env::temp_dir().join(format!("mc-one-{}", std::process::id()));
    let f = std::fs::File::create(&out).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .env("MC_REPLAY_ONE", format!("{}:{}", stage, fmt_choices(choices)))
        .env_remove("MC_CHILD")
        .stdout(f)
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let verdict = loop {
        if let Some(s) = c.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            break if let Some(sig) = s.signal() {
                format!("killed by signal {}", sig)
            } else if s.code() == Some(1) {
                "violation".into()
            } else if s.code() == Some(0) {
                "ok".into()
            } else {
                format!("exit {:?}", s.code())
            };
        }
        if t.elapsed() > Duration::from_secs(HANG_S) {
            let _ = c.kill();
            let _ = c.wait();
            break format!("does not return within {} s", HANG_S);
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    (verdict, text)
}

fn parent(p: Prop) {
    use std::process::*;
    let t0 = Instant::now();
    let path = std::env::temp_dir().join(format!("mc-slots-{}", std::process::id()));
    std::fs::File::create(&path).expect("slots");
    let slots = Slots::map(path.to_str().unwrap());
    // a stale evidence file must not survive a run that dies
    let _ = std::fs::remove_file(format!("{}/evidence/{}.json", verif_dir(), p.id));
    let mut c = Command::new(std::env::current_exe().unwrap()).env("MC_CHILD", &path).spawn().expect("child");
    let wall = if thorough() { WALL_THOROUGH_S } else { WALL_QUICK_S };
    let mut since: Vec<(u64, Instant)> = vec![(0, Instant::now()); MAX_SLOTS];
    let mut dead: Option<String> = None;
    let mut suspects: Vec<(usize, Vec<u32>)> = vec![];
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            match s.code() {
                Some(code) => {
                    let _ = std::fs::remove_file(&path);
                    std::process::exit(code);
                }
                None => {
                    dead = Some(format!("killed by signal {}", s.signal().unwrap_or(0)));
                    suspects = (0..MAX_SLOTS).filter_map(|t| slots.active(t)).map(|a| (a.1, a.2)).collect();
                    break;
                }
            }
        }
        for t in 0..MAX_SLOTS {
            match slots.active(t) {
                Some((n, si, pre)) if since[t].0 == n => {
                    if since[t].1.elapsed() > Duration::from_secs(HANG_S) {
                        suspects.push((si, pre));
                    }
                }
                Some((n, _, _)) => since[t] = (n, Instant::now()),
                None => since[t] = (u64::MAX, Instant::now()),
            }
        }
        if !suspects.is_empty() {
            dead = Some(format!("an execution does not return within {} s", HANG_S));
            break;
        }
        if t0.elapsed() > Duration::from_secs(wall) {
            break;
        }
        std::thread::sleep(Duration::from_millis(40));
    }
    let _ = c.kill();
    let _ = c.wait();
    let _ = std::fs::remove_file(&path);
    let Some(dead) = dead else {
        eprintln!("{}: wall cap of {} s hit: no verdict", p.id, wall);
        std::process::exit(2);
    };
    let stages = (p.stages)(thorough());
    for (si, ch) in suspects.iter().take(8) {
        let (verdict, text) = run_one(*si, ch);
        if verdict != "ok" {
            let st = &stages[*si];
            let msg = format!("the code under test crashes or hangs: alone, this execution {} ({})", verdict, dead);
            let trace: Vec<String> = text.lines().map(|s| s.to_string()).collect();
            let rp = write_replay(&p, &st.name, &st.bound, ch, &msg, &trace);
            write_evidence(&p, json!({"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                "samples": [{"stage": st.name, "choices": ch, "violation": msg}], "exhaustive": false}),
                t0.elapsed().as_secs_f64(), 1);
            report_violation(&p, &rp, &st.name, &msg, &trace);
            std::process::exit(1);
        }
    }
    eprintln!("{}: exploration died ({}) and no suspect execution reproduces it: no verdict", p.id, dead);
    std::process::exit(2);
}
fn budget() -> u64 {
    match std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()) {
        Some(s) => s,
        None if thorough() => BUDGET_THOROUGH_S,
        None => BUDGET_QUICK_S,
    }
}
