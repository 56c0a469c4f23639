//! C23: preparing a parser takes polynomial work.  Every pattern of a link is repeated k times to
//! a chain (the i-th link refers to itself and the next two), and the calls into the caller's
//! code while the grammar, the sets and the table are made are counted at growing k.
use crate::checks::Job;
use crate::ctx::*;
use crate::gram::*;
use crate::hook::*;
use crate::imp::*;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;

/// Symbols of a link: itself, the next, the one after, one terminal of all, one of its own.
pub const LINK: usize = 5;

/// The smallest number of links that tells everything apart.
pub const SMALL: usize = 3;
/// How the initial symbol uses the links: the first one; all in a row, plain and with terminals
/// between; the first one k times; each as an alternative; ever longer rows as alternatives.
pub const TOPS: usize = 6;
/// What the last link is: a terminal; epsilon; either; the first link again.
pub const ENDS: usize = 4;

/// k links; `alts` holds sides over 0..LINK (empty: epsilon).
pub fn chain(alts: &[Vec<usize>], top: usize, end: usize, k: usize) -> Gram {
    let n = |i: usize| NS + 1 + i as Sym;
    let own = |i: usize| TB + 1 + i as Sym;
    let mut p = match top {
        0 => vec![(NS, vec![n(0)])],
        1 => vec![(NS, (0..k).map(n).collect())],
        2 => vec![(NS, (0..k).flat_map(|i| [n(i), own(i)]).collect())],
        3 => vec![(NS, vec![n(0); k])],
        4 => (0..k).map(|i| (NS, vec![n(i), TB])).collect(),
        _ => (0..k).map(|i| (NS, (0..=i.min(11)).map(|j| n(i - j)).collect())).collect(),
    };
    for i in 0..k {
        for a in alts {
            let r: Vec<Sym> = if a.is_empty() {
                vec![EPS]
            } else {
                a.iter()
                    .map(|s| match s {
                        0 => n(i),
                        1 => n(i + 1),
                        2 => n((i + 2).min(k)),
                        3 => TA,
                        _ => own(i),
                    })
                    .collect()
            };
            p.push((n(i), r));
        }
    }
    if end == 0 || end == 2 {
        p.push((n(k), vec![TA]));
    }
    if end == 1 || end == 2 {
        p.push((n(k), vec![EPS]));
    }
    if end == 3 {
        p.push((n(k), vec![n(0)]));
    }
    Gram { eps: EPS, start: NS, prods: p }
}

/// The pattern, top and end a small chain was made of.
fn taken_apart(g: &Gram) -> Option<(Vec<Vec<usize>>, usize, usize)> {
    let n0 = |s: Sym| (s > NS).then(|| (s - NS - 1) as usize);
    let alts: Vec<Vec<usize>> = g
        .prods
        .iter()
        .filter(|p| n0(p.0) == Some(0))
        .map(|p| {
            p.1.iter()
                .filter(|s| **s != EPS)
                .map(|s| match n0(*s) {
                    Some(d) => d,
                    None if *s == TA => 3,
                    None => 4,
                })
                .collect()
        })
        .collect();
    for top in 0..TOPS {
        for end in 0..ENDS {
            if chain(&alts, top, end, SMALL).prods == g.prods {
                return Some((alts, top, end));
            }
        }
    }
    None
}

/// Every pattern with every way to begin and to end (short patterns only, where all links are used).
pub fn grammars(more: bool, f: &mut dyn FnMut(Gram)) {
    for p in patterns(more) {
        let small = p.len() == 1 || p.iter().all(|s| s.len() <= 2) && p.len() == 2;
        let leads_on = p.iter().any(|s| s.iter().any(|x| *x == 1 || *x == 2));
        for top in 0..if small { TOPS } else { 1 } {
            for end in 0..ENDS {
                if leads_on || top > 0 && end == 0 {
                    f(chain(&p, top, end, SMALL));
                }
            }
        }
    }
}

/// All patterns: one side of length <= 3, two of length <= 3 and <= 2 (more: also two of length 3,
/// and three of length <= 2).
pub fn patterns(more: bool) -> Vec<Vec<Vec<usize>>> {
    let mut sides: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..3 {
        last = last.iter().flat_map(|s| (0..LINK).map(move |x| [s.clone(), vec![x]].concat())).collect();
        sides.extend(last.clone());
    }
    let mut out: Vec<Vec<Vec<usize>>> = sides.iter().map(|s| vec![s.clone()]).collect();
    for a in &sides {
        for b in &sides {
            if (a.len(), a) > (b.len(), b) && (more || b.len() <= 2) {
                out.push(vec![a.clone(), b.clone()]);
            }
            if more && (a.len(), a) > (b.len(), b) && a.len() <= 2 {
                for c in sides.iter().filter(|c| (b.len(), b) > (c.len(), *c)) {
                    out.push(vec![a.clone(), b.clone(), c.clone()]);
                }
            }
        }
    }
    out
}

pub fn check(ctx: &mut Ctx, g: &Gram, _: &Job) -> Check {
    let Some((alts, top, end)) = taken_apart(g) else {
        ctx.skipped += 1;
        return Ok(());
    };
    ctx.nontrivial += 1;
    // stops at `most` calls; None: not judged (a panic is for other properties)
    let work = |ctx: &mut Ctx, k: usize, most: u64| -> Option<u64> {
        let g = chain(&alts, top, end, k);
        ctx.note_case(&ctx.family.clone(), &g);
        ctx.evals += 1;
        ctx.states += 1;
        ctx.steps += g.prods.len() as u64;
        let mut stopped = false;
        let r = ctx.real(|| {
            let mut stop = |_| {
                stopped = true;
                panic!("enough calls")
            };
            with_hook(ALL, &[most], &mut stop, || {
                let cfg = build::<H>(&g);
                let _p: Parser<H, NoSolver> = RecursiveDescentParser::from_grammar(&cfg);
            })
            .1
        });
        if stopped {
            return Some(most);
        }
        r.ok()
    };
    let mut last: Option<u64> = None;
    let sizes: &[usize] = if ctx.thorough { &[6, 12, 24, 48, 96] } else { &[6, 12, 24, 48] };
    for k in sizes {
        let most = last.map_or(100_000_000, |l: u64| 32 * l + 2000) + 1;
        let Some(mut c) = work(ctx, *k, most) else { return Ok(()) };
        if let Some(l) = last {
            // other hash orders, should it be the order that makes the work
            let mut tries = 0;
            while c >= most && tries < 4 {
                c = c.min(work(ctx, *k, most).unwrap_or(0));
                tries += 1;
            }
            if c >= most {
                return Err(Viol::new("the work of preparing a parser grows faster than the fifth power of its grammar")
                    .with("links", format!("{}", k))
                    .with("calls into the caller's code", format!("{} for {} links, {} or more for {}", l, k / 2, c, k)));
            }
            ctx.count(&format!("growth when doubled to {}: {}", k, match c * 2 / l.max(1) {
                0..=8 => "up to 4".to_string(),
                9..=16 => "4 to 8".to_string(),
                17..=32 => "8 to 16".to_string(),
                _ => "16 to 32".to_string(),
            }));
        }
        last = Some(c);
    }
    ctx.sample(|| format!("{} repeated: {} calls at the last size", g.text(), last.unwrap_or(0)));
    Ok(())
}
