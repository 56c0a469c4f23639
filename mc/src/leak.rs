//! C21: nothing is kept of finished or aborted work.  All memory allocated by the executing
//! thread is counted; symbols and lexemes live on the heap, so that one kept anywhere shows.
use crate::checks::Job;
use crate::ctx::*;
use crate::gram::*;
use crate::hook::*;
use crate::imp::Sy;
use crate::refm::Info;
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
}
fn grow(n: i64) {
    let _ = LIVE.try_with(|l| {
        let now = l.get() + n;
        l.set(now);
        if n > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + n));
            let _ = PEAK.try_with(|p| {
                if now > p.get() {
                    p.set(now)
                }
            });
        }
    });
}
/// Runs `f`: the most memory it held at one time, and all it allocated.
pub fn watched<R>(f: impl FnOnce() -> R) -> (R, [u64; 2]) {
    let (live, total) = (live(), TOTAL.with(|t| t.get()));
    PEAK.with(|p| p.set(live));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - live;
    (r, [peak.max(0) as u64, (TOTAL.with(|t| t.get()) - total).max(0) as u64])
}

// Memory that is used again at once: in `reusing`, every allocation gets the lowest free address of
// its size class, so that what one parse frees the next one gets at the same place of its course.
const CLASSES: usize = 12; // 16 bytes to 32 KB
const SLOTS: usize = 512;
const REGION: usize = (SLOTS * 16) << CLASSES;
static BASE: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut TAKEN: [[u64; SLOTS / 64]; CLASSES] = [[0; SLOTS / 64]; CLASSES];
thread_local! {
    static REUSE: Cell<bool> = const { Cell::new(false) };
}
fn locked<R>(f: impl FnOnce(&mut [[u64; SLOTS / 64]; CLASSES]) -> R) -> R {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *std::ptr::addr_of_mut!(TAKEN) });
    LOCK.store(false, Ordering::Release);
    r
}
/// The classes lie one after the other, each as large as all before it, and 16 bytes * SLOTS.
fn lowest(l: Layout) -> Option<*mut u8> {
    let c = (l.size().max(16).next_power_of_two().trailing_zeros() - 4) as usize;
    if c >= CLASSES || l.align() > 16 {
        return None;
    }
    locked(|t| {
        let mut base = BASE.load(Ordering::Relaxed);
        if base == 0 {
            base = unsafe { System.alloc(Layout::from_size_align(REGION, 4096).unwrap()) } as usize;
            BASE.store(base, Ordering::Relaxed);
        }
        let w = t[c].iter().position(|x| *x != u64::MAX)?;
        let b = t[c][w].trailing_ones() as usize;
        t[c][w] |= 1 << b;
        Some((base + ((SLOTS * 16) << c) + ((w * 64 + b) << (c + 4))) as *mut u8)
    })
}
fn given_back(p: *mut u8) -> bool {
    let base = BASE.load(Ordering::Relaxed);
    let d = (p as usize).wrapping_sub(base);
    if base == 0 || d >= REGION {
        return false;
    }
    let c = (d / (SLOTS * 16)).ilog2() as usize;
    let slot = (d - ((SLOTS * 16) << c)) >> (c + 4);
    locked(|t| t[c][slot / 64] &= !(1 << (slot % 64)));
    true
}
/// Runs `f` with its memory used again as soon as possible.
pub fn reusing<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            REUSE.with(|r| r.set(self.0));
        }
    }
    let _b = Back(REUSE.with(|r| r.replace(on)));
    f()
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = match REUSE.try_with(|r| r.get()) {
            Ok(true) => lowest(l).unwrap_or_else(|| System.alloc(l)),
            _ => System.alloc(l),
        };
        if !p.is_null() {
            grow(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if let Ok(true) = REUSE.try_with(|r| r.get()) {
            let p = self.alloc(l);
            if !p.is_null() {
                p.write_bytes(0, l.size());
            }
            return p;
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            grow(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !given_back(p) {
            System.dealloc(p, l);
        }
        grow(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let base = BASE.load(Ordering::Relaxed);
        if base != 0 && ((p as usize).wrapping_sub(base) < REGION || REUSE.try_with(|r| r.get()) == Ok(true)) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                p.copy_to_nonoverlapping(q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            grow(n as i64 - l.size() as i64);
        }
        q
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// A symbol on the heap.
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct G(Box<u16>);
impl Hash for G {
    fn hash<S: Hasher>(&self, h: &mut S) {
        tick(HASH);
        h.write_u16(*self.0)
    }
}
impl Clone for G {
    fn clone(&self) -> G {
        tick(CLONE);
        G(self.0.clone())
    }
}
impl Sy for G {
    fn mk(s: Sym) -> G {
        G(Box::new(s))
    }
    fn id(&self) -> Sym {
        *self.0
    }
}
/// A lexeme on the heap.
#[derive(Debug)]
struct Lx(Box<u64>);
impl Clone for Lx {
    fn clone(&self) -> Lx {
        tick(LEX);
        Lx(self.0.clone())
    }
}

struct Source {
    items: std::vec::IntoIter<Token<Lx, G>>,
}
impl Iterator for Source {
    type Item = Token<Lx, G>;
    fn next(&mut self) -> Option<Token<Lx, G>> {
        tick(ITER);
        self.items.next()
    }
}
fn source(w: &[Sym]) -> Source {
    let v: Vec<Token<Lx, G>> = w.iter().enumerate().map(|(i, s)| Token::new(if i % 3 == 2 { None } else { Some(Lx(Box::new(i as u64))) }, G::mk(*s))).collect();
    Source { items: v.into_iter() }
}

/// kind 0 declines; 1 fixes, one token on; 2 fixes only what has several candidates.
#[derive(Debug)]
struct Solver(usize);
impl Solver {
    fn answer(&self, n: usize, pos: usize, single: bool) -> Option<FixResult<Lx, G>> {
        tick(ASK);
        if self.0 == 0 || pos >= n || (self.0 == 2 && single) {
            return None;
        }
        Some(FixResult {
            final_token_position: pos + 1,
            production: FixedProduction::new(vec![
                FixedProductionPart::Gap(FixGap {
                    skipped_tokens: vec![Lx(Box::new(7))],
                    skipped_symbols: vec![G::mk(TC)],
                }),
                FixedProductionPart::Ok(AbstractSyntaxNode::new(vec![], Token::new(Some(Lx(Box::new(8))), G::mk(TZ)))),
            ]),
        })
    }
}
impl SyntaxErrorSolver<Lx, G> for Solver {
    fn fix_failed_production(&self, t: &Vec<Token<Lx, G>>, pos: usize, _: &FailedProduction<Lx, G>) -> Option<FixResult<Lx, G>> {
        self.answer(t.len(), pos, true)
    }
    fn fix_failed_productions(&self, t: &Vec<Token<Lx, G>>, pos: usize, _: &Vec<FailedProduction<Lx, G>>) -> Option<FixResult<Lx, G>> {
        self.answer(t.len(), pos, false)
    }
}

type P<'a> = RecursiveDescentParser<'a, Lx, G, Solver>;
type Cfg = ContextFreeGrammar<G>;

fn build(g: &Gram) -> Cfg {
    ContextFreeGrammar::new(
        G::mk(g.eps),
        G::mk(g.start),
        g.prods.iter().map(|(l, r)| ContextFreeGrammarProduction::new(G::mk(*l), r.iter().map(|s| G::mk(*s)).collect())).collect(),
    )
}
const HOWS: [&str; 4] = ["parser without solver", "parser with a declining solver", "parser with a fixing solver", "parser from given sets"];
fn make(cfg: &Cfg, how: usize) -> P<'_> {
    match how {
        0 => RecursiveDescentParser::from_grammar(cfg),
        3 => RecursiveDescentParser::from_grammar_and_first_follow_symbols(cfg, &FirstFollowSymbols::from(cfg)),
        k => RecursiveDescentParser::from_grammar_and_solver(cfg, Solver(k - 1)),
    }
}

struct GiveUp;

/// Runs `f`, which panics in the caller's code at point n.  Returns whether it did.
fn abort_at(n: u64, f: impl FnOnce()) -> bool {
    let fired = Cell::new(false);
    let _ = catch_unwind(AssertUnwindSafe(|| {
        with_hook(
            ALL,
            &[n],
            &mut |_| {
                fired.set(true);
                resume_unwind(Box::new(GiveUp)) // without the panic hook
            },
            f,
        )
    }));
    fired.get()
}

fn viol(story: String, before: i64, after: i64) -> Viol {
    Viol::new("memory is kept after the work it was taken for has ended")
        .with("story", story)
        .with("bytes", format!("{} more than before", after - before))
}

pub fn check(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    if info.left_recursive {
        ctx.skipped += 1;
        return Ok(());
    }
    let mut inputs: Vec<&Vec<Sym>> = job.inputs.iter().filter(|w| !w.is_empty()).collect();
    // one that panics is for other properties
    let fine = ctx.real(|| {
        let cfg = build(g);
        for how in 0..4 {
            let p = make(&cfg, how);
            inputs.retain(|w| catch_unwind(AssertUnwindSafe(|| p.parse_from_tokens(source(w)))).is_ok());
        }
    });
    if fine.is_err() || inputs.is_empty() {
        return Ok(());
    }
    // whole lives: grammar, sets, parser, parses, all dropped
    let start = live();
    let mut marks = [0i64; 6];
    for m in marks.iter_mut() {
        let r = ctx.real(|| {
            for how in 0..4 {
                let cfg = build(g);
                let p = make(&cfg, how);
                for w in &inputs {
                    p.parse_from_tokens(source(w));
                }
            }
        });
        if r.is_err() {
            return Ok(());
        }
        *m = live();
        ctx.evals += 1;
        ctx.steps += 4 * inputs.len() as u64;
    }
    ctx.states += 1;
    if marks[0] > start && ctx.grammars > 8 {
        ctx.count("grammars_that_set_something_up");
    }
    if marks[5] > marks[2] && marks[2] > marks[0] {
        return Err(viol("grammars, sets and parsers are created, used and dropped, again and again".into(), marks[0], marks[5]));
    }
    if ctx.counts.get("grammars_that_set_something_up").copied().unwrap_or(0) > 40 {
        return Err(viol(
            "each new grammar leaves something behind after all its objects were dropped (seen on 40 grammars; run the check to reproduce)".into(),
            start,
            marks[0],
        ));
    }
    let cfg = match ctx.real(|| build(g)) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    for how in 0..4 {
        let p = match ctx.real(|| make(&cfg, how)) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        let run = |ctx: &mut Ctx, w: &[Sym]| {
            ctx.evals += 1;
            let _ = ctx.real(|| {
                p.parse_from_tokens(source(w));
            });
            live()
        };
        // new inputs: the first half may set something up, the second half may not
        let (mut last, half) = (live(), inputs.len() / 2);
        for (i, w) in inputs.iter().enumerate() {
            let now = run(ctx, w);
            ctx.states += 1;
            if i == half {
                last = now;
            }
        }
        if inputs.len() > 3 && live() > last {
            // is it something set up by one kind of input only?
            let q = match ctx.real(|| make(&cfg, how)) {
                Ok(q) => q,
                Err(_) => return Ok(()),
            };
            let mut grown = 0;
            for w in &inputs {
                let a = live();
                let _ = ctx.real(|| {
                    q.parse_from_tokens(source(w));
                });
                if live() > a {
                    grown += 1;
                }
            }
            if grown > 3.max(inputs.len() / 8) {
                return Err(viol(format!("{}: {} of {} different inputs leave something behind", HOWS[how], grown, inputs.len()), last, live()));
            }
        }
        // the same inputs, again and again
        let rounds = 2 + 32 / inputs.len();
        for _ in 0..rounds {
            for w in &inputs {
                run(ctx, w);
            }
        }
        let a = live();
        for _ in 0..2 * rounds {
            for w in &inputs {
                run(ctx, w);
            }
        }
        let b = live();
        if b > a {
            for w in &inputs {
                let a = live();
                for _ in 0..64 {
                    run(ctx, w);
                }
                if live() > a {
                    return Err(viol(format!("{}: the same input is parsed again and again", HOWS[how]), a, live()).with("input", show(w)));
                }
            }
            return Err(viol(format!("{}: the same inputs are parsed again and again", HOWS[how]), a, b));
        }
        // the caller's code panics at each point
        let mut level = [0i64; 3];
        for l in level.iter_mut() {
            for w in &inputs {
                let mut n = 0;
                loop {
                    ctx.evals += 1;
                    let fired = ctx.real(|| abort_at(n, || drop(p.parse_from_tokens(source(w))))).unwrap_or(false);
                    if !fired {
                        break;
                    }
                    ctx.count("parses_aborted");
                    ctx.states += 1;
                    ctx.steps += 1;
                    n += 1;
                }
            }
            *l = live();
        }
        if level[2] > level[1] && level[1] > level[0] {
            for w in &inputs {
                for n in 0..10000 {
                    let a = live();
                    let mut fired = false;
                    for _ in 0..8 {
                        fired = ctx.real(|| abort_at(n, || drop(p.parse_from_tokens(source(w))))).unwrap_or(false);
                    }
                    if live() > a {
                        return Err(viol(format!("{}: the caller's code panics at scheduling point {}, 8 times", HOWS[how], n), a, live()).with("input", show(w)));
                    }
                    if !fired {
                        break;
                    }
                }
            }
            return Err(viol(format!("{}: the caller's code panics, again and again", HOWS[how]), level[0], level[2]));
        }
        // aborted constructions
        let mut level = [0i64; 3];
        for l in level.iter_mut() {
            for whole in [false, true] {
                let mut n = 0;
                loop {
                    ctx.evals += 1;
                    let fired = ctx
                        .real(|| {
                            abort_at(n, || {
                                if whole {
                                    let c = build(g);
                                    drop(make(&c, how));
                                } else {
                                    drop(make(&cfg, how));
                                }
                            })
                        })
                        .unwrap_or(false);
                    if !fired {
                        break;
                    }
                    ctx.count("constructions_aborted");
                    ctx.states += 1;
                    ctx.steps += 1;
                    n += if ctx.family.starts_with("edited") || ctx.family.starts_with("curated") { 5 } else { 1 };
                }
            }
            *l = live();
        }
        if level[2] > level[1] && level[1] > level[0] {
            return Err(viol(format!("{}: its construction is aborted, again and again", HOWS[how]), level[0], level[2]));
        }
    }
    ctx.nontrivial += 1;
    ctx.sample(|| format!("{} | {} inputs, every scheduling point aborted", g.text(), inputs.len()));
    Ok(())
}
