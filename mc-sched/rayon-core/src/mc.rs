//! Entry point of the schedule explorer: on a controlled thread, `join` hands
//! its two closures to the explorer instead of the thread pool.
use crate::{unwind, FnContext};
use std::cell::Cell;
use std::sync::OnceLock;

pub type Closure<'a> = &'a mut (dyn FnMut(bool) + Send);
/// Runs both closures (each once, the argument says "on another thread").
pub type Join = fn(Closure<'_>, Closure<'_>);
pub static JOIN: OnceLock<Join> = OnceLock::new();

thread_local! {
    static THREADS: Cell<usize> = const { Cell::new(0) };
}
/// Make this thread controlled, with a pool that seems to have `n` threads; 0 = not controlled.
pub fn control(n: usize) {
    THREADS.with(|t| t.set(n));
}
pub fn threads() -> Option<usize> {
    match THREADS.with(|t| t.get()) {
        0 => None,
        n => Some(n),
    }
}

pub(crate) fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (mut a, mut b) = (Some(a), Some(b));
    let (mut ra, mut rb) = (None, None);
    {
        let mut fa = |m: bool| {
            let f = a.take().unwrap();
            ra = Some(unwind::halt_unwinding(move || f(FnContext::new(m))));
        };
        let mut fb = |m: bool| {
            let f = b.take().unwrap();
            rb = Some(unwind::halt_unwinding(move || f(FnContext::new(m))));
        };
        (JOIN.get().expect("explorer"))(&mut fa, &mut fb);
    }
    match (ra.unwrap(), rb.unwrap()) {
        (Err(e), _) | (_, Err(e)) => unwind::resume_unwinding(e),
        (Ok(x), Ok(y)) => (x, y),
    }
}
