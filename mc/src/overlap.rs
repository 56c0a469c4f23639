//! C18: parses suspended or aborted inside their caller's code.  Every scheduling point (see
//! hook.rs) of a parse or of a construction is a place where another parse or construction is
//! run to completion, where the caller panics, or where another thread is let on.
use crate::checks::{c_out, Job};
use crate::ctx::*;
use crate::gram::*;
use crate::hook::*;
use crate::imp::*;
use crate::refm::Info;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

type P<'a> = Parser<'a, H, Steady>;
type Out = Result<CRes, ()>;

struct Probe<T>(PhantomData<T>);
trait NotSync {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
trait IsSync {
    fn shareable(&self) -> bool {
        true
    }
}
impl<T: Sync> IsSync for Probe<T> {}

fn parsers_can_be_shared() -> bool {
    (&Probe::<P<'static>>(PhantomData)).shareable()
}

fn go(p: &P, w: &[Sym]) -> Out {
    let feed = Feed::<H>::new(w, 0);
    c_out(catch_unwind(AssertUnwindSafe(|| p.parse_from_tokens(feed))).map_err(|_| String::new()))
}

fn make<'a>(cfg: &'a Cfg<H>, how: usize) -> P<'a> {
    match how {
        0 => RecursiveDescentParser::from_grammar(cfg),
        1 => RecursiveDescentParser::from_grammar_and_first_follow_symbols(cfg, &FirstFollowSymbols::from(cfg)),
        k => RecursiveDescentParser::from_grammar_and_solver(cfg, Steady(k - 1)),
    }
}

struct World<'a> {
    names: Vec<&'static str>,
    parsers: Vec<P<'a>>,
    inputs: Vec<Vec<Vec<Sym>>>, // per parser
    alone: Vec<Vec<Out>>,
}

impl<'a> World<'a> {
    fn check(&self, ctx: &mut Ctx, who: usize, i: usize, got: &Out, story: impl FnOnce() -> String) -> Check {
        ctx.evals += 1;
        if *got == self.alone[who][i] {
            return Ok(());
        }
        Err(Viol::new("a parse is affected by one that was suspended or aborted")
            .with("story", story())
            .with("parser", self.names[who])
            .with("input", show(&self.inputs[who][i]))
            .with("got", format!("{:?}", got))
            .with("alone", format!("{:?}", self.alone[who][i])))
    }
    fn all(&self, ctx: &mut Ctx, story: &dyn Fn() -> String) -> Check {
        for who in 0..self.parsers.len() {
            for i in 0..self.inputs[who].len() {
                let r = ctx.real(|| go(&self.parsers[who], &self.inputs[who][i])).unwrap_or(Err(()));
                self.check(ctx, who, i, &r, || story())?;
            }
        }
        Ok(())
    }
}

pub fn check(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    if info.left_recursive {
        ctx.skipped += 1;
        return Ok(());
    }
    let other = Gram::parse("epsilon _ start S : S -> a S b ; S -> A $ ; A -> a ; A -> _");
    let built = ctx.real(|| (build::<H>(g), build::<H>(&other)));
    let (cfg, cfg_o) = match built {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let inputs: Vec<Vec<Sym>> = job.inputs.iter().filter(|w| !w.is_empty()).cloned().collect();
    if inputs.is_empty() {
        return Ok(());
    }
    let names = vec!["P (no solver)", "Q (solver)", "R (other grammar)", "P2 (as P)"];
    let hows = [0usize, 2, 0, 1];
    let other_inputs = vec![unshow("a a $ b b"), unshow("a b")];
    let mut w = World {
        names,
        parsers: vec![],
        inputs: vec![],
        alone: vec![],
    };
    for (k, how) in hows.iter().enumerate() {
        let c = if k == 2 { &cfg_o } else { &cfg };
        match ctx.real(|| make(c, *how)) {
            Ok(p) => w.parsers.push(p),
            Err(_) => return Ok(()),
        }
        w.inputs.push(if k == 2 { other_inputs.clone() } else { inputs.clone() });
        let mut a = vec![];
        for i in 0..w.inputs[k].len() {
            // alone: fresh grammar, fresh parser
            let (gr, wd) = (if k == 2 { &other } else { g }, &w.inputs[k][i]);
            a.push(
                ctx.real(|| {
                    let c = build::<H>(gr);
                    let p = make(&c, *how);
                    go(&p, wd)
                })
                .unwrap_or(Err(())),
            );
        }
        w.alone.push(a);
    }
    let distinct: std::collections::HashSet<String> = w.alone[0].iter().map(|r| format!("{:?}", r)).collect();
    if distinct.len() > 1 {
        ctx.nontrivial += 1;
    }
    let w = &w;
    w.all(ctx, &|| "nothing suspended or aborted yet".into())?;
    suspended(ctx, w)?;
    aborted(ctx, w)?;
    entangled(ctx, w)?;
    constructions(ctx, g, &cfg, w, ctx.thorough || !ctx.family.starts_with("curated"))?;
    if job.depth > 0 {
        if parsers_can_be_shared() {
            threads(ctx, w, job.depth)?;
        } else {
            ctx.count("parsers_cannot_be_shared_between_threads");
        }
    }
    ctx.sample(|| format!("{} | inputs {:?}: all suspensions, aborts and interleavings", g.text(), inputs.iter().map(|x| show(x)).collect::<Vec<_>>()));
    Ok(())
}

/// Another parse runs inside the n-th scheduling point, for every n.
fn suspended(ctx: &mut Ctx, w: &World) -> Check {
    for outer in 0..2usize {
        for i in 0..w.inputs[outer].len() {
            for inner in [outer, 1 - outer, 2, 3] {
                for j in 0..w.inputs[inner].len() {
                    let mut n = 0;
                    loop {
                        let got_in: RefCell<Option<Out>> = RefCell::new(None);
                        let r = ctx.real(|| {
                            with_hook(
                                ALL,
                                &[n],
                                &mut |_| {
                                    let r = go(&w.parsers[inner], &w.inputs[inner][j]);
                                    *got_in.borrow_mut() = Some(r);
                                },
                                || go(&w.parsers[outer], &w.inputs[outer][i]),
                            )
                        });
                        let (got, seen) = match r {
                            Ok(x) => x,
                            Err(_) => (Err(()), 0),
                        };
                        let story = || {
                            format!(
                                "{} parses [{}]; at scheduling point {} {} parses [{}]",
                                w.names[outer],
                                show(&w.inputs[outer][i]),
                                n,
                                w.names[inner],
                                show(&w.inputs[inner][j])
                            )
                        };
                        w.check(ctx, outer, i, &got, story)?;
                        ctx.steps += 1;
                        match got_in.into_inner() {
                            Some(r) => {
                                ctx.states += 1;
                                ctx.count("parses_suspended");
                                w.check(ctx, inner, j, &r, story)?
                            }
                            None => break,
                        }
                        n += 1;
                        if n > seen + 1 {
                            break;
                        }
                    }
                }
            }
        }
    }
    w.all(ctx, &|| "after parses were suspended".into())
}

/// The caller's code panics at the n-th scheduling point, for every n.
fn aborted(ctx: &mut Ctx, w: &World) -> Check {
    for outer in 0..2usize {
        for i in 0..w.inputs[outer].len() {
            // after the abort, each parse may be the next one on the parser
            let (mut n, mut next) = (0, 0);
            loop {
                let fired = RefCell::new(false);
                let r = ctx.real(|| {
                    with_hook(
                        ALL,
                        &[n],
                        &mut |_| {
                            *fired.borrow_mut() = true;
                            panic!("the caller gives up");
                        },
                        || go(&w.parsers[outer], &w.inputs[outer][i]),
                    )
                    .0
                });
                let got = r.unwrap_or(Err(()));
                let fired = fired.into_inner();
                let story = || {
                    format!(
                        "{} parses [{}]; the caller's code panics at scheduling point {}",
                        w.names[outer],
                        show(&w.inputs[outer][i]),
                        n
                    )
                };
                ctx.steps += 1;
                if !fired {
                    w.check(ctx, outer, i, &got, story)?;
                    break;
                }
                ctx.states += 1;
                ctx.count("parses_aborted");
                if got.is_ok() {
                    return Err(Viol::new("a panic of the caller's code did not reach the caller")
                        .with("story", story())
                        .with("input", show(&w.inputs[outer][i]))
                        .with("got", format!("{:?}", got)));
                }
                for (who, k) in [(outer, next), (outer, i), (1 - outer, next), (3, next)] {
                    let r = ctx.real(|| go(&w.parsers[who], &w.inputs[who][k])).unwrap_or(Err(()));
                    w.check(ctx, who, k, &r, story)?;
                }
                next += 1;
                if next == w.inputs[outer].len() {
                    next = 0;
                    n += 1;
                }
            }
            // an empty token sequence is refused with a panic, too
            let r = ctx.real(|| go(&w.parsers[outer], &[]));
            if let Ok(Ok(_)) = r {
                return Err(Viol::new("an empty token sequence was not refused"));
            }
            let r = ctx.real(|| go(&w.parsers[outer], &w.inputs[outer][i])).unwrap_or(Err(()));
            w.check(ctx, outer, i, &r, || "after an empty token sequence".into())?;
        }
    }
    w.all(ctx, &|| "after parses were aborted".into())
}

/// Six parses inside one another, parses inside which others are aborted, and parses with
/// another one inside every scheduling point.
fn entangled(ctx: &mut Ctx, w: &World) -> Check {
    const DEEP: usize = 6;
    fn nest(w: &World, who: usize, i: usize, n: u64, level: usize, log: &RefCell<Vec<(usize, usize, Out)>>) {
        let k = i % w.inputs[who].len();
        let r = if level == DEEP {
            go(&w.parsers[who], &w.inputs[who][k])
        } else {
            // every other level on the other parser of a pair where `n` is odd
            let next = if n % 2 == 1 { 1 - who } else { who };
            with_hook(
                ALL,
                &[n],
                &mut |_| nest(w, next, i + 1, n, level + 1, log),
                || go(&w.parsers[who], &w.inputs[who][k]),
            )
            .0
        };
        log.borrow_mut().push((who, k, r));
    }
    for outer in 0..2usize {
        for i in 0..w.inputs[outer].len() {
            let mut n = 0;
            loop {
                let log = RefCell::new(vec![]);
                let _ = ctx.real(|| nest(w, outer, i, n, 1, &log));
                let log = log.into_inner();
                let story = || {
                    format!("{} parses [{}]; at scheduling point {} of each another parse starts, six in all", w.names[outer], show(&w.inputs[outer][i]), n)
                };
                ctx.steps += 1;
                ctx.states += 1;
                for (who, k, r) in &log {
                    w.check(ctx, *who, *k, r, story)?;
                }
                if log.len() <= 1 {
                    break;
                }
                ctx.count("parses_nested");
                // another parse is aborted in there
                let ends: Vec<u64> = if ctx.thorough { (0..=n).collect() } else { vec![n, n * 3 / 4, n / 2] };
                for m in ends {
                    for who in [outer, 1 - outer] {
                        let j = (i + m as usize) % w.inputs[who].len();
                        let r = ctx.real(|| {
                            with_hook(
                                ALL,
                                &[n],
                                &mut |_| {
                                    let _ = catch_unwind(AssertUnwindSafe(|| {
                                        with_hook(ALL, &[m], &mut |_| panic!("the caller gives up"), || go(&w.parsers[who], &w.inputs[who][j]))
                                    }));
                                },
                                || go(&w.parsers[outer], &w.inputs[outer][i]),
                            )
                            .0
                        });
                        let story = || {
                            format!(
                                "{} parses [{}]; at scheduling point {} {} parses [{}] and its caller panics at scheduling point {}",
                                w.names[outer],
                                show(&w.inputs[outer][i]),
                                n,
                                w.names[who],
                                show(&w.inputs[who][j]),
                                m
                            )
                        };
                        ctx.steps += 1;
                        ctx.states += 1;
                        ctx.count("parses_suspended_by_an_aborted_one");
                        w.check(ctx, outer, i, &r.unwrap_or(Err(())), story)?;
                        let r = ctx.real(|| go(&w.parsers[who], &w.inputs[who][j])).unwrap_or(Err(()));
                        w.check(ctx, who, j, &r, story)?;
                    }
                }
                n += 1;
            }
            // `n` is the number of points
            let all: Vec<u64> = (0..n).collect();
            for inner in [outer, 1 - outer, 2, 3] {
                let log = RefCell::new(vec![]);
                let r = ctx.real(|| {
                    with_hook(
                        ALL,
                        &all,
                        &mut |k| {
                            let j = k as usize % w.inputs[inner].len();
                            let r = go(&w.parsers[inner], &w.inputs[inner][j]);
                            log.borrow_mut().push((j, r));
                        },
                        || go(&w.parsers[outer], &w.inputs[outer][i]),
                    )
                    .0
                });
                let story = || format!("{} parses [{}]; at every scheduling point {} parses something", w.names[outer], show(&w.inputs[outer][i]), w.names[inner]);
                w.check(ctx, outer, i, &r.unwrap_or(Err(())), story)?;
                for (j, r) in log.into_inner() {
                    ctx.steps += 1;
                    w.check(ctx, inner, j, &r, story)?;
                }
            }
        }
    }
    w.all(ctx, &|| "after parses were entangled".into())
}

/// Grammars, sets and parsers are built while others are used, and their building is aborted.
fn constructions(ctx: &mut Ctx, g: &Gram, cfg: &Cfg<H>, w: &World, every: bool) -> Check {
    for how in [0usize, 1, 2] {
        // a whole construction, grammar included, or one on the shared grammar
        for whole in [false, true] {
            if how == 1 && whole {
                continue;
            }
            let mut n = 0;
            let stride = if every { 1 } else { 7 };
            let k = if how == 2 { 1 } else { 0 };
            let len = w.inputs[k].len();
            loop {
                let i = n as usize % len;
                let got_in: RefCell<Option<(usize, usize, Out)>> = RefCell::new(None);
                let mut res: Out = Err(());
                let body = |res: &mut Out| {
                    if whole {
                        let c = build::<H>(g);
                        let p = make(&c, how);
                        *res = go(&p, &w.inputs[k][i]);
                    } else {
                        let p = make(cfg, how);
                        *res = go(&p, &w.inputs[k][i]);
                    }
                };
                let story = |what: &str| {
                    format!(
                        "a {} is built {} to parse [{}]; at scheduling point {} {}",
                        if how == 2 { "parser with solver" } else { "parser" },
                        if whole { "from a new grammar object" } else { "from the shared grammar" },
                        show(&w.inputs[k][i]),
                        n,
                        what
                    )
                };
                let r = ctx.real(|| {
                    with_hook(
                        ALL,
                        &[n],
                        &mut |_| {
                            let who = [0, 1, 2, 3][n as usize % 4];
                            let j = n as usize / 4 % w.inputs[who].len();
                            let r = if n % 3 == 0 {
                                catch_unwind(AssertUnwindSafe(|| {
                                    let c = build::<H>(g);
                                    let p = make(&c, if who == 1 { 2 } else { 0 });
                                    (if who == 1 { 1 } else { 0 }, j % len, go(&p, &w.inputs[0][j % len]))
                                }))
                                .unwrap_or((0, j % len, Err(())))
                            } else {
                                (who, j, go(&w.parsers[who], &w.inputs[who][j]))
                            };
                            *got_in.borrow_mut() = Some(r);
                        },
                        || body(&mut res),
                    )
                });
                if r.is_err() {
                    res = Err(());
                }
                ctx.steps += 1;
                w.check(ctx, k, i, &res, || story("another parse runs"))?;
                match got_in.into_inner() {
                    Some((who, j, r)) => {
                        ctx.states += 1;
                        ctx.count("constructions_suspended");
                        w.check(ctx, who, j, &r, || story("another parse runs"))?
                    }
                    None => break,
                }
                // aborted there
                // (the number of points varies with the hash order of the new objects)
                let mut res: Out = Err(());
                let mut fired = false;
                let r = ctx.real(|| {
                    with_hook(
                        ALL,
                        &[n],
                        &mut |_| {
                            fired = true;
                            panic!("the caller gives up")
                        },
                        || body(&mut res),
                    )
                });
                ctx.count("constructions_aborted");
                if fired && r.is_ok() && res.is_ok() {
                    return Err(Viol::new("a panic of the caller's code did not reach the caller").with("story", story("the caller panics")));
                }
                let mut res: Out = Err(());
                let _ = ctx.real(|| body(&mut res));
                w.check(ctx, k, i, &res, || story("the caller panicked; built again"))?;
                let r = ctx.real(|| go(&w.parsers[k], &w.inputs[k][i])).unwrap_or(Err(()));
                w.check(ctx, k, i, &r, || story("the caller panicked; the older parser"))?;
                n += stride;
            }
        }
    }
    w.all(ctx, &|| "after constructions were suspended and aborted".into())
}

// ------------------------------------------------------------------ threads

struct Baton {
    turn: Mutex<(usize, [bool; 2], bool)>, // whose turn, who ended, free running
    cv: Condvar,
}

impl Baton {
    /// Let the other thread run until it hands back, ends, or is blocked.
    fn hand_over(&self, me: usize) {
        let mut t = self.turn.lock().unwrap();
        if t.1[1 - me] || t.2 {
            return;
        }
        t.0 = 1 - me;
        self.cv.notify_all();
        while t.0 != me && !t.2 {
            let (n, timeout) = self.cv.wait_timeout(t, Duration::from_secs(3)).unwrap();
            t = n;
            if timeout.timed_out() && t.0 != me {
                // the other one waits for something this thread holds (or the machine is
                // busy): from here on both run freely
                t.2 = true;
                self.cv.notify_all();
            }
        }
    }
    fn wait_for_turn(&self, me: usize) {
        let mut t = self.turn.lock().unwrap();
        while t.0 != me && !t.2 {
            t = self.cv.wait(t).unwrap();
        }
    }
    fn end(&self, me: usize) {
        let mut t = self.turn.lock().unwrap();
        t.1[me] = true;
        t.0 = 1 - me;
        self.cv.notify_all();
    }
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

const YIELDS: u8 = ITER | LEX | CLONE | ASK;

/// One schedule of two parses in two threads: each hands over at its given points.  Returns
/// both results, the number of points each passed, and whether all hand-overs happened.
fn duel(mask: u8, a: (&P, &[Sym], &[u64]), b: (&P, &[Sym], &[u64])) -> (Out, Out, u64, u64) {
    let baton = Baton {
        turn: Mutex::new((0, [false, false], false)),
        cv: Condvar::new(),
    };
    let bb = Force((b.0, b.1, b.2, &baton));
    let ((ra, na), (rb, nb)) = std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let (p, w, points, baton) = *bb.get();
                baton.wait_for_turn(1);
                let r = catch_unwind(AssertUnwindSafe(|| with_hook(mask, points, &mut |_| baton.hand_over(1), || go(p, w))))
                    .unwrap_or((Err(()), 0));
                baton.end(1);
                Force(r)
            })
            .expect("thread");
        let ra = catch_unwind(AssertUnwindSafe(|| with_hook(mask, a.2, &mut |_| baton.hand_over(0), || go(a.0, a.1))))
            .unwrap_or((Err(()), 0));
        baton.end(0);
        let rb = h.join().map(|f| f.0).unwrap_or((Err(()), 0));
        (ra, rb)
    });
    (ra, rb, na, nb)
}

/// All schedules of two parses with two preemptions (depth 2) or three (depth 3), on one
/// parser and on two.
fn threads(ctx: &mut Ctx, w: &World, depth: usize) -> Check {
    for (a, b) in [(0usize, 0usize), (0, 3), (1, 1), (1, 0), (0, 2)] {
        for i in 0..w.inputs[a].len() {
            for j in 0..w.inputs[b].len() {
                // the finest set of scheduling points that leaves a feasible number of schedules
                let mut pick = None;
                for mask in [YIELDS, ITER | LEX | ASK, ITER | ASK] {
                    let (_, na) = with_hook(mask, &[], &mut |_| (), || go(&w.parsers[a], &w.inputs[a][i]));
                    let (_, nb) = with_hook(mask, &[], &mut |_| (), || go(&w.parsers[b], &w.inputs[b][j]));
                    let total = na * nb * if depth >= 3 { na } else { 1 };
                    if total <= if ctx.thorough { 4_000 } else { 1_000 } {
                        pick = Some((mask, na, nb));
                        break;
                    }
                }
                let (mask, na, nb) = match pick {
                    Some(x) => x,
                    None => {
                        ctx.count("thread_pairs_with_too_many_schedules");
                        continue;
                    }
                };
                if mask != YIELDS {
                    ctx.count("thread_pairs_with_coarse_points");
                }
                for x in 0..na {
                    for y in 0..nb {
                        let last = if depth >= 3 { x + 1..na + 1 } else { na..na + 1 };
                        for z in last {
                            let pa: Vec<u64> = if z < na { vec![x, z] } else { vec![x] };
                            let r = ctx.real(|| duel(mask, (&w.parsers[a], &w.inputs[a][i], &pa), (&w.parsers[b], &w.inputs[b][j], &[y])));
                            let (ra, rb, _, _) = r.unwrap_or((Err(()), Err(()), 0, 0));
                            ctx.states += 1;
                            ctx.steps += 1 + pa.len() as u64;
                            ctx.count("thread_schedules");
                            let story = || {
                                format!(
                                    "two threads: {} parses [{}] and hands over at points {:?}, {} parses [{}] and hands over at point {}",
                                    w.names[a],
                                    show(&w.inputs[a][i]),
                                    pa,
                                    w.names[b],
                                    show(&w.inputs[b][j]),
                                    y
                                )
                            };
                            w.check(ctx, a, i, &ra, story)?;
                            w.check(ctx, b, j, &rb, story)?;
                        }
                    }
                }
            }
        }
    }
    w.all(ctx, &|| "after parses in two threads".into())
}
