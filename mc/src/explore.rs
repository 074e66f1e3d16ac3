//! Choice-tree explorer. A harness body asks `Ch::pick(n)` wherever the
//! environment, the schedule or the input may differ; the explorer runs the
//! body once for every leaf of the resulting choice tree (no sampling).
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;
pub fn fx<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

/// Why an execution failed.
#[derive(Debug, Clone)]
pub struct Viol(pub String);
pub type Res = Result<(), Viol>;
#[macro_export]
macro_rules! viol { ($($a:tt)*) => { return Err($crate::Viol(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Viol(format!($($a)*))) } } }

#[derive(Default)]
pub struct Counts {
    pub execs: u64,
    pub steps: u64,
    pub states: FxSet,
    pub outcomes: FxSet,
    pub max_depth: usize,
}
impl Counts {
    fn merge(&mut self, o: Counts) {
        self.execs += o.execs;
        self.steps += o.steps;
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.max_depth = self.max_depth.max(o.max_depth);
    }
}

pub struct Ch<'a> {
    choices: Vec<u32>,
    arity: Vec<u32>,
    known: usize, // arity[..known] was recorded by an earlier run of this prefix
    pos: usize,
    pub c: &'a mut Counts,
    log: Option<Vec<String>>,
    diverged: Option<String>,
}

impl<'a> Ch<'a> {
    /// One of n alternatives; every alternative is explored.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "pick(0)");
        let n = n as u32;
        if self.pos < self.choices.len() {
            if self.pos < self.known && self.arity[self.pos] != n && self.diverged.is_none() {
                self.diverged = Some(format!(
                    "choice {} had {} alternatives, now {}",
                    self.pos, self.arity[self.pos], n
                ));
            }
            if self.pos >= self.arity.len() {
                self.arity.push(n);
            } else if self.pos >= self.known {
                self.arity[self.pos] = n;
            }
            let c = self.choices[self.pos];
            if c >= n {
                if self.diverged.is_none() {
                    self.diverged = Some(format!("choice {} is {} of {}", self.pos, c, n));
                }
                self.pos += 1;
                return 0;
            }
            self.pos += 1;
            c as usize
        } else {
            self.choices.push(0);
            self.arity.push(n);
            self.pos += 1;
            0
        }
    }
    pub fn of<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        &xs[self.pick(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// A call on the code under test was made.
    #[inline]
    pub fn step(&mut self) {
        self.c.steps += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.c.steps += n;
    }
    /// A (model) state was reached.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.c.states.insert(fx(t));
    }
    /// An observation made of the code under test (distinct ones are counted).
    #[inline]
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.c.outcomes.insert(fx(t));
    }
    /// Human-readable trace, only kept on replay.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(f())
        }
    }
    pub fn logging(&self) -> bool {
        self.log.is_some()
    }
}

/// One explored harness. `body` is run once per leaf.
pub struct Stage {
    pub name: String,
    pub bound: String,
    pub body: Box<dyn Fn(&mut Ch) -> Res + Sync>,
}
pub fn stage(
    name: impl Into<String>,
    bound: impl Into<String>,
    body: impl Fn(&mut Ch) -> Res + Sync + 'static,
) -> Stage {
    Stage { name: name.into(), bound: bound.into(), body: Box::new(body) }
}

pub struct Found {
    pub choices: Vec<u32>,
    pub msg: String,
}
/// When exploration ends at the latest, and whether it did.
pub static DEADLINE: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
pub static CUT: AtomicBool = AtomicBool::new(false);
fn late() -> bool {
    let l = DEADLINE.get().map_or(false, |d| std::time::Instant::now() > *d);
    if l {
        CUT.store(true, Ordering::Relaxed);
    }
    l
}
pub enum StageEnd {
    Complete(Counts, Vec<Vec<u32>>),
    Violated(Found, Counts),
    Engine(String),
}

/// Panic with a message, turned into text.
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Call code under test; a panic is an outcome.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}
/// Call code under test where a panic is a violation.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    call(f).map_err(|p| Viol(format!("{what} panicked: {p}")))
}

fn exec(st: &Stage, ch: &mut Ch) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (st.body)(ch))) {
        Ok(r) => r,
        Err(p) => Err(Viol(format!("unexpected panic: {}", panic_text(p)))),
    }
}

pub fn replay(st: &Stage, choices: &[u32]) -> (Res, Vec<String>, Option<String>) {
    let mut c = Counts::default();
    let mut ch = Ch {
        choices: choices.to_vec(),
        arity: vec![],
        known: 0,
        pos: 0,
        c: &mut c,
        log: Some(vec![]),
        diverged: None,
    };
    let r = exec(st, &mut ch);
    let d = ch.diverged.take();
    (r, ch.log.take().unwrap(), d)
}

pub fn explore(st: &Stage, si: usize, threads: usize, slots: &crate::run::Slots) -> StageEnd {
    // Split the tree into tasks (frozen prefixes).
    let mut total = Counts::default();
    let mut tasks: std::collections::VecDeque<(Vec<u32>, bool)> = [(vec![], false)].into();
    let target = 64 * threads;
    let mut rounds = 0;
    while tasks.len() < target && rounds < 4 * target {
        rounds += 1;
        let Some(i) = tasks.iter().position(|t| !t.1) else { break };
        let (p, _) = tasks.remove(i).unwrap();
        let mut dummy = Counts::default();
        let mut ch = Ch {
            choices: p.clone(),
            arity: vec![],
            known: 0,
            pos: 0,
            c: &mut dummy,
            log: None,
            diverged: None,
        };
        slots.enter(0, si, &p);
        let r = exec(st, &mut ch);
        slots.leave(0);
        if let Some(d) = ch.diverged {
            return StageEnd::Engine(format!("{}: {}", st.name, d));
        }
        if let Err(v) = r {
            return StageEnd::Violated(Found { choices: ch.choices.clone(), msg: v.0 }, total);
        }
        if ch.choices.len() <= p.len() {
            tasks.insert(i, (p, true));
        } else {
            let n = ch.arity[p.len()];
            for k in (0..n).rev() {
                let mut q = p.clone();
                q.push(k);
                tasks.insert(i, (q, false));
            }
        }
    }
    let tasks: Vec<Vec<u32>> = tasks.into_iter().map(|t| t.0).collect();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(usize, Found)>> = Mutex::new(None);
    let engine: Mutex<Option<String>> = Mutex::new(None);
    let parts: Mutex<Vec<Counts>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for tid in 0..threads {
            let (next, stop, found, engine, parts, tasks, samples) =
                (&next, &stop, &found, &engine, &parts, &tasks, &samples);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut cnt = Counts::default();
                    'tasks: loop {
                        let t = next.fetch_add(1, Ordering::Relaxed);
                        if t >= tasks.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let frozen = tasks[t].len();
                        let mut choices = tasks[t].clone();
                        let mut arity: Vec<u32> = vec![];
                        let mut known = 0;
                        let mut nth = 0u64;
                        loop {
                            if stop.load(Ordering::Relaxed) || late() {
                                break 'tasks;
                            }
                            slots.enter(tid, si, &choices);
                            let mut ch = Ch {
                                choices: std::mem::take(&mut choices),
                                arity: std::mem::take(&mut arity),
                                known,
                                pos: 0,
                                c: &mut cnt,
                                log: None,
                                diverged: None,
                            };
                            let r = exec(st, &mut ch);
                            slots.leave(tid);
                            ch.choices.truncate(ch.pos.max(0));
                            ch.arity.truncate(ch.pos);
                            let (pos, div) = (ch.pos, ch.diverged.take());
                            choices = std::mem::take(&mut ch.choices);
                            arity = std::mem::take(&mut ch.arity);
                            drop(ch);
                            cnt.execs += 1;
                            cnt.max_depth = cnt.max_depth.max(pos);
                            nth += 1;
                            if let Err(v) = r {
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map_or(true, |(ot, _)| t < *ot) {
                                    *f = Some((t, Found { choices: choices.clone(), msg: v.0 }));
                                }
                                stop.store(true, Ordering::Relaxed);
                                break 'tasks;
                            }
                            if let Some(d) = div {
                                *engine.lock().unwrap() = Some(format!("{}: nondeterministic replay: {}", st.name, d));
                                stop.store(true, Ordering::Relaxed);
                                break 'tasks;
                            }
                            if pos < frozen {
                                *engine.lock().unwrap() =
                                    Some(format!("{}: prefix not consumed", st.name));
                                stop.store(true, Ordering::Relaxed);
                                break 'tasks;
                            }
                            if nth == 1 && (t * 5) % tasks.len() < 5 {
                                samples.lock().unwrap().push(choices.clone());
                            }
                            // next leaf
                            while choices.len() > frozen
                                && choices.last().unwrap() + 1 >= *arity.last().unwrap()
                            {
                                choices.pop();
                                arity.pop();
                            }
                            if choices.len() == frozen {
                                break;
                            }
                            *choices.last_mut().unwrap() += 1;
                            known = arity.len();
                        }
                    }
                    parts.lock().unwrap().push(cnt);
                })
                .unwrap();
        }
    });
    for p in parts.into_inner().unwrap() {
        total.merge(p);
    }
    if let Some((_, f)) = found.into_inner().unwrap() {
        return StageEnd::Violated(f, total);
    }
    if let Some(e) = engine.into_inner().unwrap() {
        return StageEnd::Engine(e);
    }
    let mut s = samples.into_inner().unwrap();
    s.sort();
    StageEnd::Complete(total, s)
}
