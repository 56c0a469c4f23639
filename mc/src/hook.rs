//! Scheduling points: every call the crate makes into code of its caller (comparison, hashing
//! and cloning of symbols, cloning of lexemes, the token iterator, the solver) goes through
//! `tick`, where the explorer may suspend or abort the parse in progress.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicUsize, Ordering};

pub const EQ: u8 = 1;
pub const HASH: u8 = 2;
pub const CLONE: u8 = 4;
pub const LEX: u8 = 8;
pub const ITER: u8 = 16;
pub const ASK: u8 = 32;
pub const ALL: u8 = 63;

static ARMED: AtomicUsize = AtomicUsize::new(0);

struct Hook {
    mask: u8,
    seen: u64,
    points: Vec<u64>,
    next: usize,
    act: Box<dyn FnMut(u64)>,
}

thread_local! {
    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
    static DEEPEST: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The stack used at the deepest scheduling point of `f` (run it under `with_hook`).
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let here = 0u8;
    let base = std::hint::black_box(&here) as *const u8 as usize;
    DEEPEST.with(|d| d.set(base));
    let r = f();
    (r, (base - DEEPEST.with(|d| d.get()).min(base)) as u64)
}

#[inline]
pub fn tick(kind: u8) {
    if ARMED.load(Ordering::Relaxed) != 0 {
        slow(kind)
    }
}

struct PutBack(Option<Hook>);
impl Drop for PutBack {
    fn drop(&mut self) {
        let h = self.0.take();
        HOOK.with(|x| *x.borrow_mut() = h);
    }
}

#[cold]
fn slow(kind: u8) {
    let here = 0u8;
    let at = std::hint::black_box(&here) as *const u8 as usize;
    DEEPEST.with(|d| {
        if at < d.get() {
            d.set(at)
        }
    });
    let due = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        let x = match h.as_mut() {
            Some(x) if x.mask & kind != 0 => x,
            _ => return None,
        };
        let n = x.seen;
        x.seen += 1;
        if x.points.get(x.next) != Some(&n) {
            return None;
        }
        x.next += 1;
        Some((h.take(), n))
    });
    if let Some((h, n)) = due {
        // no hook while acting: what runs inside is not interrupted
        let mut h = PutBack(h);
        (h.0.as_mut().unwrap().act)(n);
    }
}

struct Disarm(Option<Hook>);
impl Drop for Disarm {
    fn drop(&mut self) {
        ARMED.fetch_sub(1, Ordering::Relaxed);
        let old = self.0.take();
        HOOK.with(|x| *x.borrow_mut() = old);
    }
}

/// Runs `f`; `act(n)` is called at the n-th scheduling point for each n in `points`
/// (ascending).  Returns what `f` returns and how many points were passed in all.
pub fn with_hook<R>(mask: u8, points: &[u64], act: &mut dyn FnMut(u64), f: impl FnOnce() -> R) -> (R, u64) {
    let act: Box<dyn FnMut(u64) + '_> = Box::new(act);
    // the hook is gone when this function returns or unwinds
    let act: Box<dyn FnMut(u64)> = unsafe { std::mem::transmute(act) };
    let new = Hook {
        mask,
        seen: 0,
        points: points.to_vec(),
        next: 0,
        act,
    };
    let old = HOOK.with(|x| x.borrow_mut().replace(new));
    ARMED.fetch_add(1, Ordering::Relaxed);
    let guard = Disarm(old);
    let r = f();
    let seen = HOOK.with(|x| x.borrow().as_ref().map_or(0, |h| h.seen));
    drop(guard);
    (r, seen)
}
