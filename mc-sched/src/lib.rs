//! Controlled execution of rayon joins: every task runs on its own thread, one
//! at a time, and the explorer chooses who runs next at every fork, at the end
//! of every task and, for a bounded number of times, at a memory allocation in
//! the middle of a task.
use mc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Task {
    Ready,
    /// waits for the end of another task
    Join(usize),
    Done,
}
struct State {
    tasks: Vec<Task>,
    current: Option<usize>,
    /// took the processor but is blocked outside of our control
    blocked: Vec<usize>,
    /// the task that was just preempted at an allocation
    preempted: Option<usize>,
    /// thread of each task that has its turn or had one and is blocked
    tids: Vec<i32>,
}
extern "C" {
    fn gettid() -> i32;
}
/// Does the thread of a task wait in the kernel?
fn sleeps(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| s.rsplit(") ").next().map(|r| r.starts_with('S')))
        .unwrap_or(false)
}
pub struct Ctl {
    m: Mutex<State>,
    host: Condvar,
    task: Condvar,
    threads: usize,
    migrate: bool,
    inline: Option<Inline>,
    joins: AtomicU64,
    /// allocations made by tasks so far
    allocs: AtomicU64,
    /// allocation at which the running task is preempted
    preempt: Vec<u64>,
    progress: AtomicU64,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Ctl>, usize)>> = const { RefCell::new(None) };
    static COUNT: Cell<bool> = const { Cell::new(false) };
    static INLINE: Cell<Option<Inline>> = const { Cell::new(None) };
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
fn point() {
    if !COUNT.try_with(|c| c.get()).unwrap_or(false) {
        return;
    }
    COUNT.with(|c| c.set(false));
    ME.with(|me| {
        let me = me.borrow();
        if let Some((c, id)) = me.as_ref() {
            let n = c.allocs.fetch_add(1, Ordering::Relaxed);
            if c.preempt.contains(&n) {
                c.m.lock().unwrap().preempted = Some(*id);
                c.hand_over(*id, Task::Ready);
            }
        }
    });
    COUNT.with(|c| c.set(true));
}

impl Ctl {
    /// Give up the processor in the given state and wait for it.
    fn hand_over(&self, me: usize, t: Task) {
        let mut s = self.m.lock().unwrap();
        s.tasks[me] = match t {
            Task::Join(o) if s.tasks[o] == Task::Done => Task::Ready,
            t => t,
        };
        s.blocked.retain(|b| *b != me);
        if s.current == Some(me) {
            s.current = None;
        }
        self.progress.fetch_add(1, Ordering::Relaxed);
        self.host.notify_one();
        if t != Task::Done {
            self.wait_turn(me, s);
        }
    }
    fn wait_turn(&self, me: usize, mut s: std::sync::MutexGuard<State>) {
        if s.tids.len() <= me {
            s.tids.resize(me + 1, 0);
        }
        s.tids[me] = 0;
        while s.current != Some(me) {
            s = self.task.wait(s).unwrap();
        }
        // from here on it may be found blocked
        s.tids[me] = unsafe { gettid() };
    }
    fn run_task(self: &Arc<Ctl>, id: usize, f: &mut dyn FnMut()) {
        self.wait_turn(id, self.m.lock().unwrap());
        rayon_core::mc::control(self.threads);
        ME.with(|m| *m.borrow_mut() = Some((self.clone(), id)));
        COUNT.with(|c| c.set(true));
        f();
        COUNT.with(|c| c.set(false));
        ME.with(|m| *m.borrow_mut() = None);
        rayon_core::mc::control(0);
        let mut s = self.m.lock().unwrap();
        for t in s.tasks.iter_mut() {
            if *t == Task::Join(id) {
                *t = Task::Ready;
            }
        }
        drop(s);
        self.hand_over(id, Task::Done);
    }
}

fn join(a: rayon_core::mc::Closure<'_>, b: rayon_core::mc::Closure<'_>) {
    COUNT.with(|c| c.set(false));
    let (ctl, me) = ME.with(|m| m.borrow().clone()).expect("controlled");
    if let Some(i) = ctl.inline.or(INLINE.with(|i| i.get())) {
        COUNT.with(|c| c.set(true));
        let n = ctl.joins.fetch_add(1, Ordering::Relaxed);
        if i == Inline::Second || i == Inline::Alternate && n % 2 == 1 {
            b(false);
            a(false);
        } else {
            a(false);
            b(false);
        }
        return;
    }
    let id = {
        let mut s = ctl.m.lock().unwrap();
        s.tasks.push(Task::Ready);
        s.tasks.len() - 1
    };
    // The closure outlives the task: this function does not return before the
    // task has ended.
    let b: rayon_core::mc::Closure<'static> = unsafe { std::mem::transmute(b) };
    let c2 = ctl.clone();
    let th = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let m = c2.migrate;
            c2.clone().run_task(id, &mut || b(m))
        })
        .expect("thread");
    ctl.hand_over(me, Task::Ready);
    COUNT.with(|c| c.set(true));
    a(ctl.migrate);
    COUNT.with(|c| c.set(false));
    ctl.hand_over(me, Task::Join(id));
    th.join().expect("task");
    COUNT.with(|c| c.set(true));
}

/// From here on, joins made by this task run both sides one after the other.
pub fn inline_joins() {
    INLINE.with(|i| i.set(Some(Inline::First)));
}
/// A point at which another task may go on.
pub fn yield_now() {
    COUNT.with(|c| c.set(false));
    let me = ME.with(|m| m.borrow().clone());
    if let Some((ctl, id)) = me.filter(|m| m.0.inline.is_none()) {
        ctl.hand_over(id, Task::Ready);
        COUNT.with(|c| c.set(true));
    }
}

/// Which side of a join runs first.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inline {
    First,
    Second,
    Alternate,
}
#[derive(Clone, Debug)]
pub struct Plan {
    /// size the thread pool seems to have
    pub threads: usize,
    /// tasks count as stolen by another worker
    pub migrate: bool,
    /// run both sides of a join one after the other on one thread
    pub inline: Option<Inline>,
    /// tasks are preempted at these allocations
    pub preempt: Vec<u64>,
    /// With preemptions the number of allocations may differ between runs (the
    /// regex crate keeps caches by thread), so the schedule is fixed up front.
    pub fixed: Option<Fixed>,
}
#[derive(Clone, Copy, Debug)]
pub struct Fixed {
    /// of the tasks that are ready, run the youngest first (else the oldest)
    pub youngest: bool,
    /// which of the other tasks runs when one is preempted
    pub target: usize,
    /// a preempted task goes on at the next switch (else when nothing else can)
    pub soon: bool,
}
pub struct Trace {
    /// the order in which tasks ran
    pub order: Vec<usize>,
    pub allocs: u64,
    pub switches: u64,
}
/// Run `f` with every join under control; the explorer chooses the schedule.
pub fn run<T: Send>(ch: &mut Ch, plan: &Plan, f: impl FnOnce() -> T + Send) -> (Result<T, String>, Trace) {
    rayon_core::mc::JOIN.get_or_init(|| join);
    let ctl = Arc::new(Ctl {
        m: Mutex::new(State { tasks: vec![Task::Ready], current: None, blocked: vec![], preempted: None, tids: vec![] }),
        host: Condvar::new(),
        task: Condvar::new(),
        threads: plan.threads,
        migrate: plan.migrate,
        inline: plan.inline,
        joins: AtomicU64::new(0),
        allocs: AtomicU64::new(0),
        preempt: plan.preempt.clone(),
        progress: AtomicU64::new(0),
    });
    let mut out = None;
    let mut order = vec![];
    let mut f = Some(f);
    std::thread::scope(|sc| {
        let c = ctl.clone();
        let out = &mut out;
        let f = &mut f;
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, move || {
                c.clone().run_task(0, &mut || *out = Some(call(f.take().unwrap())));
            })
            .expect("thread");
        let mut stopped: Vec<usize> = vec![];
        let mut s = ctl.m.lock().unwrap();
        loop {
            // wait until the processor is given up
            let mut seen = ctl.progress.load(Ordering::Relaxed);
            let (mut asleep, mut idle) = (0, 0);
            while let Some(cur) = s.current {
                let (g, t) = ctl.host.wait_timeout(s, Duration::from_millis(4)).unwrap();
                s = g;
                let now = ctl.progress.load(Ordering::Relaxed) + ctl.allocs.load(Ordering::Relaxed);
                let tid = s.tids.get(cur).copied().unwrap_or(0);
                let still = t.timed_out() && s.current == Some(cur) && now == seen && tid != 0;
                asleep = if still && sleeps(tid) { asleep + 1 } else { 0 };
                idle = if still { idle + 1 } else { 0 };
                // asleep, or spinning
                if asleep == 8 || idle == 40 {
                    // blocked on something a preempted task holds
                    s.blocked.push(cur);
                    s.current = None;
                }
                seen = now;
            }
            let ready: Vec<usize> = (0..s.tasks.len()).filter(|t| s.tasks[*t] == Task::Ready && !s.blocked.contains(t)).collect();
            if ready.is_empty() {
                if s.tasks.iter().all(|t| *t == Task::Done) {
                    break;
                }
                // every task that is left is blocked or waits for a blocked one
                s = ctl.host.wait_timeout(s, Duration::from_millis(5)).unwrap().0;
                continue;
            }
            let t = match plan.fixed {
                None => ready[if ready.len() == 1 { 0 } else { ch.pick(ready.len()) }],
                Some(f) => {
                    let mut others = ready.clone();
                    if f.youngest {
                        others.reverse();
                    }
                    let n = s.preempted.take();
                    if let Some(p) = n {
                        stopped.push(p);
                    }
                    others.retain(|t| !stopped.contains(t));
                    let t = if n.is_some() && !others.is_empty() {
                        others[f.target % others.len()]
                    } else if f.soon || others.is_empty() {
                        stopped.iter().cloned().find(|t| ready.contains(t)).or(others.first().cloned()).unwrap()
                    } else {
                        others[0]
                    };
                    stopped.retain(|x| *x != t);
                    t
                }
            };
            order.push(t);
            s.current = Some(t);
            ctl.task.notify_all();
        }
    });
    let tr = Trace { switches: order.len() as u64, order, allocs: ctl.allocs.load(Ordering::Relaxed) };
    (out.expect("root task"), tr)
}
