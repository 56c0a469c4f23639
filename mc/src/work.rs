//! C20, C22: the work and the memory of deterministic parsing grow linearly.  Memory is what is
//! allocated, held at one time, and used of the stack; work is what a caller can count:
//! calls into its code (comparisons, hashes and clones of symbols, clones of lexemes, steps of
//! the iterator, questions to the solver).
use crate::checks::Job;
use crate::ctx::*;
use crate::gram::*;
use crate::hook::*;
use crate::imp::*;
use crate::leak::watched;
use crate::refm::Info;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use std::collections::HashSet;

/// u v^n x y^n z
fn pumped(w: &[Sym], cut: [usize; 4], n: usize) -> Vec<Sym> {
    let [i, j, k, l] = cut;
    let mut v = w[..i].to_vec();
    for _ in 0..n {
        v.extend(&w[i..j]);
    }
    v.extend(&w[j..k]);
    for _ in 0..n {
        v.extend(&w[k..l]);
    }
    v.extend(&w[l..]);
    v
}

pub fn check(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    if info.left_recursive || !info.ll1() {
        ctx.skipped += 1;
        return Ok(());
    }
    let made = ctx.real(|| build::<H>(g));
    let cfg = match made {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let made = ctx.real(|| {
        let a: Parser<H, NoSolver> = RecursiveDescentParser::from_grammar(&cfg);
        let b: Parser<H, Steady> = RecursiveDescentParser::from_grammar_and_solver(&cfg, Steady(0));
        (a, b)
    });
    let (plain, solved) = match made {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let memory = ctx.prop == "C22";
    let sizes = match (memory, ctx.thorough) {
        (false, _) => [48, 96, 192],
        (true, false) => [24, 96, 384],
        (true, true) => [48, 192, 768],
    };
    // None: not judged (a panic is for other properties)
    let work = |ctx: &mut Ctx, w: &[Sym], with: bool| -> Option<Vec<u64>> {
        ctx.evals += 1;
        let run = |feed: Feed<H>| {
            with_hook(ALL, &[], &mut |_| (), || {
                if with {
                    drop(solved.parse_from_tokens(feed))
                } else {
                    drop(plain.parse_from_tokens(feed))
                }
            })
            .1
        };
        let r = ctx.real(|| {
            let feed = Feed::<H>::new(w, 0);
            if memory {
                let ((_, heap), stack) = stack_of(|| watched(|| run(feed)));
                vec![heap[0], heap[1], stack]
            } else {
                vec![run(feed)]
            }
        });
        r.ok()
    };
    let accepted = |w: &[Sym]| info.sentence(w);
    let mut seen: HashSet<Vec<Sym>> = HashSet::new();
    for w in job.inputs.iter().filter(|w| !w.is_empty() && accepted(w)) {
        let n = w.len();
        let mut cuts = vec![];
        for i in 0..n {
            for j in i + 1..=n {
                cuts.push([i, j, j, j]);
                for k in j..n {
                    for l in k + 1..=n {
                        if l > k {
                            cuts.push([i, j, k, l]);
                        }
                    }
                }
            }
        }
        for cut in cuts {
            if cut[2] == cut[1] && cut[3] > cut[2] && w[cut[0]..cut[1]] == w[cut[2]..cut[3]] {
                continue;
            }
            if !accepted(&pumped(w, cut, 2)) || !accepted(&pumped(w, cut, 3)) || !seen.insert(pumped(w, cut, 4)) {
                continue;
            }
            ctx.nontrivial += 1;
            ctx.count("pumped_words");
            for variant in 0..4 {
                let make = |n: usize| {
                    let mut x = pumped(w, cut, n);
                    let m = x.len();
                    match variant {
                        1 => {
                            x.pop();
                        }
                        2 => x[m / 2] = TZ,
                        3 => x[m - 1] = TA,
                        _ => {}
                    }
                    x
                };
                for with in [false, true] {
                    let measure = |ctx: &mut Ctx, sizes: [usize; 3]| -> Vec<Vec<u64>> {
                        let mut c = vec![];
                        for n in sizes {
                            let x = make(n);
                            ctx.note_input(&x[..x.len().min(100)]);
                            c.extend(work(ctx, &x, with));
                            ctx.states += 1;
                            ctx.steps += x.len() as u64;
                        }
                        c
                    };
                    let c = measure(ctx, sizes);
                    if c.len() < 3 {
                        continue;
                    }
                    for q in 0..c[0].len() {
                        let c = [c[0][q], c[1][q], c[2][q]];
                        let (d1, d2) = (c[1].saturating_sub(c[0]), c[2].saturating_sub(c[1]));
                        let kind = if memory { ["memory held at one time", "memory allocated in all", "stack"][q] } else { "calls into the caller's code" };
                        let judge = |c: &[u64; 3]| if memory { c[2] > 6 * c[1] + 512 } else { c[2].saturating_sub(c[1]) > c[1].saturating_sub(c[0]) * 13 / 5 + 200 };
                        let bad = judge(&c);
                        let near = if memory { c[2] > 5 * c[1] } else { d2 > d1 * 22 / 10 };
                        ctx.count(&format!(
                            "{}: growth {}",
                            kind,
                            match if memory { (10 * c[2]).checked_div(c[1]) } else { (10 * d2).checked_div(d1) } {
                                None => "none".to_string(),
                                _ if near => "above".to_string(),
                                Some(x) => format!("{}.{}", x / 10, x % 10),
                            }
                        ));
                        // not to be alarmed by a collision of hashes that costs one more comparison
                        // at each token (other hash keys every time), nor by collections that
                        // double their capacity (other sizes)
                        let again = bad
                            && (0..8).any(|n| {
                                let f = |x: usize| if n % 2 == 0 { x * 3 / 2 } else { x };
                                let c = measure(ctx, [f(sizes[0]), f(sizes[1]), f(sizes[2])]);
                                c.len() == 3 && !judge(&[c[0][q], c[1][q], c[2][q]])
                            });
                        if bad && !again {
                            return Err(Viol::new(format!("the {} of deterministic parsing grows faster than its input", if memory { kind } else { "work" }))
                                .with("input", show(w))
                                .with("pumped", format!("tokens {}..{} and {}..{} of the input repeated {:?} times, variant {}", cut[0], cut[1], cut[2], cut[3], sizes, ["as is", "last token missing", "a foreign token in the middle", "last token replaced"][variant]))
                                .with("solver", format!("{}", with))
                                .with(kind, format!("{:?}", c)));
                        }
                    }
                }
            }
            ctx.sample(|| format!("{} | {} pumped at {:?}", g.text(), show(w), cut));
        }
    }
    Ok(())
}
