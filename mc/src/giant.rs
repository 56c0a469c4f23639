//! C02, C03 on grammars with thousands of symbols: a third formulation of FIRST and FOLLOW, over
//! sparse graphs (cross-checked with the dense one in `selfx`).
use crate::checks::Job;
use crate::ctx::*;
use crate::gram::*;
use crate::imp::*;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use std::collections::{BTreeSet, HashMap, HashSet};

/// Has symbols the dense models do not know.
pub fn beyond(g: &Gram) -> bool {
    g.prods.iter().any(|(l, r)| *l as usize >= MAXSYM || r.iter().any(|s| *s as usize >= MAXSYM))
}

pub struct Sets {
    pub nts: Vec<Sym>,
    pub terms: BTreeSet<Sym>,
    /// With epsilon where the symbol can vanish.
    pub first: Vec<Vec<Sym>>,
    pub follow: Vec<Vec<Sym>>,
}

/// What can be reached from each node, and the labels found there.
fn collect(next: &[Vec<usize>], own: &[Vec<Sym>]) -> Vec<BTreeSet<Sym>> {
    let n = next.len();
    let mut mark = vec![usize::MAX; n];
    (0..n)
        .map(|i| {
            let mut out = BTreeSet::new();
            let mut todo = vec![i];
            mark[i] = i;
            while let Some(x) = todo.pop() {
                out.extend(own[x].iter().copied());
                for y in &next[x] {
                    if mark[*y] != i {
                        mark[*y] = i;
                        todo.push(*y);
                    }
                }
            }
            out
        })
        .collect()
}

pub fn sets(g: &Gram) -> Sets {
    let mut nts = vec![];
    let mut at: HashMap<Sym, usize> = HashMap::new();
    for (l, _) in &g.prods {
        at.entry(*l).or_insert_with(|| {
            nts.push(*l);
            nts.len() - 1
        });
    }
    let n = nts.len();
    // symbols that vanish: each production waits for as many symbols as it has
    let mut vanish = vec![false; n];
    let mut uses: Vec<Vec<usize>> = vec![vec![]; n];
    let mut left: Vec<usize> = vec![];
    let mut todo = vec![];
    for (p, (l, r)) in g.prods.iter().enumerate() {
        let syms: Vec<Sym> = r.iter().copied().filter(|s| *s != g.eps).collect();
        if syms.iter().any(|s| !at.contains_key(s)) {
            left.push(usize::MAX);
        } else {
            left.push(syms.len());
            for s in &syms {
                uses[at[s]].push(p);
            }
            if syms.is_empty() {
                todo.push(at[l]);
            }
        }
    }
    while let Some(i) = todo.pop() {
        if vanish[i] {
            continue;
        }
        vanish[i] = true;
        for p in &uses[i] {
            left[*p] -= 1;
            if left[*p] == 0 {
                todo.push(at[&g.prods[*p].0]);
            }
        }
    }
    let mut next: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    let mut own: Vec<HashSet<Sym>> = vec![HashSet::new(); n];
    let mut terms = BTreeSet::new();
    for (l, r) in &g.prods {
        let i = at[l];
        let mut begins = true;
        for s in r {
            match at.get(s) {
                None => {
                    terms.insert(*s);
                    if begins && *s != g.eps {
                        own[i].insert(*s);
                        begins = false;
                    }
                }
                Some(j) => {
                    if begins {
                        next[i].insert(*j);
                        begins = vanish[*j];
                    }
                }
            }
        }
    }
    let list = |v: Vec<HashSet<usize>>| -> Vec<Vec<usize>> { v.into_iter().map(|s| s.into_iter().collect()).collect() };
    let labels = |v: Vec<HashSet<Sym>>| -> Vec<Vec<Sym>> { v.into_iter().map(|s| s.into_iter().collect()).collect() };
    let begin = collect(&list(next), &labels(own));
    // what may come next: from the right of every production
    let mut next: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    let mut own: Vec<HashSet<Sym>> = vec![HashSet::new(); n];
    for (l, r) in &g.prods {
        let mut ahead: BTreeSet<Sym> = BTreeSet::new();
        let mut open = true;
        for s in r.iter().rev().filter(|s| **s != g.eps) {
            match at.get(s) {
                None => {
                    ahead = std::iter::once(*s).collect();
                    open = false;
                }
                Some(j) => {
                    own[*j].extend(ahead.iter().copied());
                    if open {
                        next[*j].insert(at[l]);
                    }
                    if !vanish[*j] {
                        ahead.clear();
                        open = false;
                    }
                    ahead.extend(begin[*j].iter().copied());
                }
            }
        }
    }
    let follow = collect(&list(next), &labels(own));
    let first = begin
        .into_iter()
        .enumerate()
        .map(|(i, mut s)| {
            if vanish[i] {
                s.insert(g.eps);
            }
            s.into_iter().collect()
        })
        .collect();
    Sets {
        nts,
        terms,
        first,
        follow: follow.into_iter().map(|s| s.into_iter().collect()).collect(),
    }
}

pub fn check(ctx: &mut Ctx, g: &Gram, _: &Job) -> Check {
    let is_first = ctx.prop == "C02";
    let want = sets(g);
    ctx.nontrivial += 1;
    ctx.evals += 1;
    ctx.states += 1;
    ctx.steps += (want.nts.len() + want.terms.len()) as u64;
    let cfg = match ctx.real(|| build::<Y>(g)) {
        Ok(c) => c,
        Err(e) => return Err(Viol::new(format!("building the grammar panicked: {}", e))),
    };
    let ff = match ctx.real(|| FirstFollowSymbols::from(&cfg)) {
        Ok(x) => x,
        Err(e) => return Err(Viol::new(format!("computing the sets panicked: {}", e))),
    };
    let judge = |s: Sym, want: Option<&Vec<Sym>>| -> Check {
        let t = Y(s);
        let got = if is_first { ff.get_first_symbols(&t) } else { ff.get_follow_symbols(&t) };
        let got: Option<Vec<Sym>> = got.map(|h| h.iter().map(|x| x.0).collect::<BTreeSet<Sym>>().into_iter().collect());
        if got.as_ref() != want {
            let p = |v: Option<&Vec<Sym>>| match v {
                None => "none".to_string(),
                Some(v) => format!("{{{}}} ({} symbols)", show(&v[..v.len().min(20)]), v.len()),
            };
            return Err(Viol::new(format!(
                "{}({}) is {} but must be {}",
                if is_first { "FIRST" } else { "FOLLOW" },
                name(s),
                p(got.as_ref()),
                p(want)
            )));
        }
        Ok(())
    };
    for (i, s) in want.nts.iter().enumerate() {
        judge(*s, Some(if is_first { &want.first[i] } else { &want.follow[i] }))?;
    }
    for s in &want.terms {
        if is_first {
            judge(*s, Some(&vec![*s]))?
        } else {
            judge(*s, None)?
        }
    }
    ctx.sample(|| format!("{} symbols, {} productions", want.nts.len(), g.prods.len()));
    Ok(())
}

/// Non-terminals and terminals beyond the dense models.
fn n(i: usize) -> Sym {
    assert!(i < 20_000);
    1_000 + i as Sym
}
fn t(i: usize) -> Sym {
    assert!(i < 20_000);
    30_000 + i as Sym
}

pub fn grammars(thorough: bool, f: &mut dyn FnMut(Gram)) {
    let mut emit = |p: Vec<(Sym, Vec<Sym>)>| f(Gram { eps: EPS, start: NS, prods: p });
    for k in if thorough { vec![600, 1100, 2100, 3000] } else { vec![600, 2100] } {
        let chain = |step: &dyn Fn(usize) -> Vec<Sym>, end: Vec<Vec<Sym>>| -> Vec<(Sym, Vec<Sym>)> {
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![(NS, vec![n(0), TB])];
            p.extend((0..k).map(|i| (n(i), step(i))));
            p.extend(end.into_iter().map(|e| (n(k), e)));
            p
        };
        // FIRST runs up, FOLLOW runs down; plain, through vanishing symbols, behind and before terminals
        emit(chain(&|i| vec![n(i + 1)], vec![vec![TA], vec![EPS]]));
        emit(chain(&|i| vec![TC, n(i + 1)], vec![vec![TA]]));
        emit(chain(&|i| vec![n(i + 1), TC], vec![vec![TA], vec![EPS]]));
        emit(chain(&|i| vec![n(i + 1), n(i + 1)], vec![vec![TA], vec![EPS]]));
        emit(chain(&|i| vec![n(i + 1), n(k)], vec![vec![TA], vec![EPS]]));
        emit(chain(&|i| vec![n(k), n(i + 1)], vec![vec![TA], vec![EPS]]));
        // declared from the end
        let mut p = chain(&|i| vec![n(i + 1)], vec![vec![TA], vec![EPS]]);
        p.reverse();
        emit(p);
        // a ring
        emit((0..k).map(|i| (n(i), vec![n((i + 1) % k)])).chain([(n(k / 2), vec![TA]), (n(k / 3), vec![EPS]), (NS, vec![n(0), TB])]).collect());
        // many alternatives, terminals and kinds of list
        emit((0..k).map(|i| (NS, vec![t(i)])).chain([(NA, vec![NS, NS])]).collect());
        emit((0..k).flat_map(|i| [(NS, vec![n(i), TB]), (n(i), vec![t(i)])]).collect());
        emit((0..k).flat_map(|i| [(NS, vec![n(i)]), (n(i), vec![EPS]), (n(i), vec![t(i), n((i + 1) % k)])]).collect());
    }
    // one long side of symbols that vanish; sets that differ from link to link
    for k in if thorough { vec![300, 520, 1100] } else { vec![520] } {
        let mut p = vec![(NS, (0..k).map(n).collect::<Vec<_>>())];
        p.extend((0..k).flat_map(|i| [(n(i), vec![EPS]), (n(i), vec![t(i)])]));
        emit(p);
    }
    for k in if thorough { vec![300, 520] } else { vec![300] } {
        let mut p = vec![];
        for i in 0..k {
            p.push((n(i), vec![n(i + 1), t(i)]));
            p.push((n(i), vec![t(i)]));
        }
        p.push((n(k), vec![EPS]));
        emit(p);
    }
}
