//! One checking function per group of properties; each takes one grammar and explores
//! every input / order / answer sequence of the job on the real code.
use crate::ctx::*;
use crate::gram::*;
use crate::imp::*;
use crate::refm::*;
use crate::solvm::*;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::token::token::Token;
use std::collections::{BTreeSet, HashMap, HashSet};

pub struct Job<'a> {
    pub inputs: &'a [Vec<Sym>],
    pub deviations: usize,
    pub all_positions: bool,
    pub depth: usize,
    pub script: Option<Vec<Option<usize>>>, // replay: this answer script only
}

pub fn run(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    ctx.grammars += 1;
    let prop = ctx.prop.clone();
    match prop.as_str() {
        "C01" => c01(ctx, g),
        "C02" | "C03" if crate::giant::beyond(g) => crate::giant::check(ctx, g, job),
        "C02" | "C03" => first_follow(ctx, g),
        "C04" => c04(ctx, g),
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => parse(ctx, g, job),
        "C12" | "C13" | "C14" => solver(ctx, g, job),
        "C15" => history(ctx, g, job),
        "C16" => orders_agree(ctx, g, job),
        "C17" => lexemes(ctx, g, job),
        "C18" => crate::overlap::check(ctx, g, job),
        "C20" | "C22" => crate::work::check(ctx, g, job),
        "C23" => crate::prep::check(ctx, g, job),
        "C21" => crate::leak::check(ctx, g, job),
        "C19" => given_sets(ctx, g, job),
        _ => panic!("unknown property {}", prop),
    }
    .map_err(|v| v.with("grammar", g.text()))
}

// ------------------------------------------------------------------ C01

pub fn well_formed(g: &Gram) -> bool {
    g.prods.iter().all(|(l, r)| {
        *l != g.eps && !r.is_empty() && (r.len() == 1 || r.iter().all(|s| *s != g.eps))
    })
}

fn c01(ctx: &mut Ctx, g: &Gram) -> Check {
    c01_t::<Y>(ctx, g)?;
    if g.prods.len() <= 2 {
        c01_t::<K>(ctx, g)?;
    }
    Ok(())
}

fn c01_t<T: Sy>(ctx: &mut Ctx, g: &Gram) -> Check {
    ctx.evals += 1;
    ctx.states += 1;
    ctx.steps += 1 + g.prods.len() as u64;
    let ok = well_formed(g);
    let built = ctx.real(|| build::<T>(g));
    ctx.sample(|| format!("{} => {}", g.text(), if ok { "built" } else { "refused" }));
    let cfg = match (ok, built) {
        (true, Ok(c)) => c,
        (false, Err(_)) => {
            ctx.count("refused");
            return Ok(());
        }
        (true, Err(e)) => {
            return Err(Viol::new(format!("well-formed grammar refused: {}", e)));
        }
        (false, Ok(_)) => return Err(Viol::new("ill-formed grammar accepted")),
    };
    ctx.count("built");
    ctx.nontrivial += 1;
    let heads: BTreeSet<Sym> = g.prods.iter().map(|p| p.0).collect();
    let terms: BTreeSet<Sym> = g
        .prods
        .iter()
        .flat_map(|p| p.1.iter().copied())
        .filter(|s| !heads.contains(s))
        .collect();
    let mut probes: BTreeSet<Sym> = heads.iter().chain(terms.iter()).copied().collect();
    probes.extend([g.eps, g.start, END, TA, TB, TZ, NA, NB, NC]);
    let probes_ref = &probes;
    let got = ctx.real(|| {
        let mut bad: Option<String> = None;
        let mut fail = |m: String| {
            if bad.is_none() {
                bad = Some(m)
            }
        };
        if cfg.get_epsilon_symbol().id() != g.eps {
            fail("epsilon symbol differs".into());
        }
        if cfg.get_initial_symbol().id() != g.start {
            fail("initial symbol differs".into());
        }
        let mut nts: Vec<Sym> = cfg.get_non_terminal_symbols().iter().map(|s| s.id()).collect();
        nts.sort();
        if nts != heads.iter().copied().collect::<Vec<_>>() {
            fail(format!("non-terminals reported: {}", show(&nts)));
        }
        let mut ts: Vec<Sym> = cfg.get_terminal_symbols().iter().map(|s| s.id()).collect();
        ts.sort();
        if ts != terms.iter().copied().collect::<Vec<_>>() {
            fail(format!("terminals reported: {}", show(&ts)));
        }
        for s in probes_ref {
            let t = T::mk(*s);
            if cfg.is_non_terminal(&t) != heads.contains(s) {
                fail(format!("is_non_terminal({}) wrong", name(*s)));
            }
            if cfg.is_terminal(&t) != terms.contains(s) {
                fail(format!("is_terminal({}) wrong", name(*s)));
            }
            let want: Vec<&Vec<Sym>> = g
                .prods
                .iter()
                .filter(|p| p.0 == *s)
                .map(|p| &p.1)
                .collect();
            match cfg.get_productions(&t) {
                None => {
                    if !want.is_empty() {
                        fail(format!("get_productions({}) is None", name(*s)));
                    }
                }
                Some(ps) => {
                    let same = !want.is_empty()
                        && ps.len() == want.len()
                        && ps.iter().zip(&want).all(|(p, w)| {
                            p.input.id() == *s
                                && p.output.len() == w.len()
                                && p.output.iter().zip(w.iter()).all(|(a, b)| a.id() == *b)
                                && {
                                    let c = p.clone();
                                    c.input == p.input && c.output == p.output
                                }
                        });
                    if !same {
                        let l: Vec<String> = ps
                            .iter()
                            .map(|p| {
                                let o: Vec<Sym> = p.output.iter().map(|s| s.id()).collect();
                                format!("{} -> {}", name(p.input.id()), show(&o))
                            })
                            .collect();
                        fail(format!("get_productions({}) is [{}]", name(*s), l.join(" ; ")));
                    }
                }
            }
        }
        bad
    });
    match got {
        Err(e) => Err(Viol::new(format!("accessor panicked: {}", e))),
        Ok(Some(m)) => Err(Viol::new(m)),
        Ok(None) => Ok(()),
    }
}

// ------------------------------------------------------------------ hash orders

fn perm_key<T: Sy>(cfg: &Cfg<T>) -> Vec<Sym> {
    cfg.get_non_terminal_symbols().iter().map(|s| s.id()).collect()
}

/// Calls `f` with a grammar object for every iteration order of its non-terminals (the
/// order in which all fixed points visit them), reconstructing the object until each of
/// the n! orders has been seen (n <= 4; above, and beyond the caps, as counted).
fn each_order<T: Sy>(
    ctx: &mut Ctx,
    g: &Gram,
    n: usize,
    mut f: impl FnMut(&mut Ctx, &Cfg<T>, &str) -> Check,
) -> Check {
    let (want, cap) = match n {
        0 | 1 => (1usize, 1usize),
        2 => (2, 40),
        3 => (6, 300),
        4 => (24, 1500),
        _ => (usize::MAX, if ctx.thorough { 64 } else { 12 }),
    };
    // a few further instances also vary the order of collections that cannot be observed
    let at_least = if ctx.replay {
        cap.max(64)
    } else if n <= 1 {
        1
    } else if ctx.thorough {
        want.min(24) + 6
    } else {
        want.min(24)
    };
    let mut seen: HashSet<Vec<Sym>> = HashSet::new();
    let mut tries = 0;
    let mut done = 0;
    while tries < cap.max(at_least) && (seen.len() < want || done < at_least) {
        tries += 1;
        let cfg = match ctx.real(|| build::<T>(g)) {
            Ok(c) => c,
            Err(e) => return Err(Viol::new(format!("building the grammar panicked: {}", e))),
        };
        let key = perm_key(&cfg);
        let fresh = !seen.contains(&key);
        if fresh || want == usize::MAX || (seen.len() >= want && done < at_least) || ctx.replay {
            let label = show(&key);
            seen.insert(key);
            done += 1;
            f(ctx, &cfg, &label)
                .map_err(|v| v.with("order", format!("non-terminals visited as: {}", label)))?;
        }
    }
    ctx.add("hash_orders_explored", seen.len() as u64);
    if want != usize::MAX && seen.len() < want {
        ctx.count("grammars_with_some_order_not_reached");
    }
    Ok(())
}

fn set_of<T: Sy>(h: &HashSet<T>) -> Bs {
    let mut b = Bs::new();
    for s in h {
        b.put(s.id());
    }
    b
}

// ------------------------------------------------------------------ C02, C03

fn first_follow(ctx: &mut Ctx, g: &Gram) -> Check {
    ff_t::<Y>(ctx, g)?;
    if ctx.family == "sym-types" {
        ff_t::<K>(ctx, g)?;
        ff_t::<Z>(ctx, g)?;
    }
    Ok(())
}

fn ff_t<T: Sy>(ctx: &mut Ctx, g: &Gram) -> Check {
    let info = Info::new(g);
    let is_first = ctx.prop == "C02";
    let mut probes: Vec<Sym> = info.terms.list();
    probes.extend(&info.nts);
    for s in [g.eps, END, TA, TZ, NC, g.start] {
        if !probes.contains(&s) {
            probes.push(s);
        }
    }
    // expected answers
    let want: Vec<(Sym, Option<Bs>)> = probes
        .iter()
        .map(|s| {
            let e = match info.nt(*s) {
                Some(i) => {
                    if is_first {
                        let mut b = info.first[i];
                        if info.nullable[i] {
                            b.put(g.eps);
                        }
                        Some(b)
                    } else {
                        Some(info.follow[i])
                    }
                }
                None => {
                    if is_first && info.terms.has(*s) {
                        let mut b = Bs::new();
                        b.put(*s);
                        Some(b)
                    } else {
                        None
                    }
                }
            };
            (*s, e)
        })
        .collect();
    let interesting = info.nts.iter().any(|s| {
        let i = info.nt(*s).unwrap();
        if is_first {
            info.alts[i].iter().any(|p| info.nt(g.prods[*p].1[0]).is_some())
        } else {
            info.follow[i] != Bs::new()
        }
    });
    if interesting {
        ctx.nontrivial += 1;
    }
    if info.nullable.iter().any(|b| *b) {
        ctx.count("grammars_with_vanishing_symbols");
    }
    if info.left_recursive {
        ctx.count("left_recursive_grammars");
    }
    let n = info.nts.len();
    each_order::<T>(ctx, g, n, |ctx, cfg, _| {
        ctx.evals += 1;
        ctx.states += 1;
        ctx.steps += want.len() as u64;
        let ff = match ctx.real(|| FirstFollowSymbols::from(cfg)) {
            Ok(x) => x,
            Err(e) => return Err(Viol::new(format!("computing the sets panicked: {}", e))),
        };
        for (s, e) in &want {
            let t = T::mk(*s);
            let got = if is_first {
                ff.get_first_symbols(&t)
            } else {
                ff.get_follow_symbols(&t)
            }
            .map(set_of);
            if got != *e {
                let p = |b: &Option<Bs>| match b {
                    None => "none".to_string(),
                    Some(b) => format!("{{{}}}", show(&b.list())),
                };
                return Err(Viol::new(format!(
                    "{}({}) is {} but must be {}",
                    if is_first { "FIRST" } else { "FOLLOW" },
                    name(*s),
                    p(&got),
                    p(e)
                )));
            }
        }
        ctx.sample(|| {
            let l: Vec<String> = want
                .iter()
                .filter_map(|(s, b)| b.as_ref().map(|b| format!("{}:{{{}}}", name(*s), show(&b.list()))))
                .collect();
            format!("{} => {}", g.text(), l.join(" "))
        });
        Ok(())
    })
}

// ------------------------------------------------------------------ C04

type FF = (HashMap<Sym, (Bs, bool)>, HashMap<Sym, Bs>); // first (without eps, vanishes), follow

fn supplied<T: Sy>(info: &Info, ff: &FF) -> FirstFollowSymbols<T> {
    let mut first: HashMap<T, HashSet<T>> = HashMap::new();
    let mut follow: HashMap<T, HashSet<T>> = HashMap::new();
    for t in info.terms.list() {
        first.insert(T::mk(t), [T::mk(t)].into_iter().collect());
    }
    for (s, (b, v)) in &ff.0 {
        let mut h: HashSet<T> = b.list().iter().map(|s| T::mk(*s)).collect();
        if *v {
            h.insert(T::mk(info.g.eps));
        }
        first.insert(T::mk(*s), h);
    }
    for (s, b) in &ff.1 {
        follow.insert(T::mk(*s), b.list().iter().map(|s| T::mk(*s)).collect());
    }
    FirstFollowSymbols::new(first, follow)
}

fn exact_ff(info: &Info) -> FF {
    let mut a = HashMap::new();
    let mut b = HashMap::new();
    for (i, s) in info.nts.iter().enumerate() {
        a.insert(*s, (info.first[i], info.nullable[i]));
        b.insert(*s, info.follow[i]);
    }
    (a, b)
}

fn table_check<T: Sy>(
    ctx: &mut Ctx,
    g: &Gram,
    info: &Info,
    tr: &RecursiveDescentParserTransitions<T>,
    predict: &[Bs],
) -> Check {
    let mut syms: Vec<Sym> = info.terms.list();
    syms.extend(&info.nts);
    for s in [g.eps, END, TA, TZ, NC, g.start] {
        if !syms.contains(&s) {
            syms.push(s);
        }
    }
    for x in &syms {
        let xi = info.nt(*x);
        for t in &syms {
            ctx.steps += 1;
            let want: Option<Vec<usize>> = match xi {
                Some(i) if info.terms.has(*t) => Some(
                    info.alts[i]
                        .iter()
                        .copied()
                        .filter(|p| predict[*p].has(*t))
                        .collect(),
                ),
                _ => None,
            };
            let got = tr.get_productions(&T::mk(*x), &T::mk(*t));
            let same = match (&want, got) {
                (None, None) => true,
                (Some(w), Some(ps)) => {
                    w.len() == ps.len()
                        && w.iter().zip(ps).all(|(p, q)| {
                            let r = &g.prods[*p].1;
                            q.input.id() == *x
                                && q.output.len() == r.len()
                                && q.output.iter().zip(r).all(|(a, b)| a.id() == *b)
                        })
                }
                _ => false,
            };
            if !same {
                let gt = got.map(|ps| {
                    ps.iter()
                        .map(|p| show(&p.output.iter().map(|s| s.id()).collect::<Vec<_>>()))
                        .collect::<Vec<_>>()
                });
                let wt =
                    want.map(|w| w.iter().map(|p| show(&g.prods[*p].1)).collect::<Vec<_>>());
                return Err(Viol::new(format!(
                    "predictions for ({}, {}) are {:?} but must be {:?}",
                    name(*x),
                    name(*t),
                    gt,
                    wt
                )));
            }
        }
    }
    Ok(())
}

fn c04(ctx: &mut Ctx, g: &Gram) -> Check {
    c04_t::<Y>(ctx, g)?;
    if ctx.family == "sym-types" {
        c04_t::<K>(ctx, g)?;
        c04_t::<Z>(ctx, g)?;
    }
    Ok(())
}

fn c04_t<T: Sy>(ctx: &mut Ctx, g: &Gram) -> Check {
    let info = Info::new(g);
    if info.predict.iter().any(|b| b.list().len() > 1) {
        ctx.nontrivial += 1;
    }
    let n = info.nts.len();
    each_order::<T>(ctx, g, n, |ctx, cfg, _| {
        ctx.evals += 1;
        ctx.states += 1;
        let (tr, got) = match ctx.real(|| {
            let ff = FirstFollowSymbols::from(cfg);
            let tr = RecursiveDescentParserTransitions::from(cfg, &ff);
            // the sets the table was made from (whether they are right is C02 and C03)
            let got: Vec<(Bs, Bs)> = info
                .nts
                .iter()
                .map(|s| {
                    let t = T::mk(*s);
                    (
                        ff.get_first_symbols(&t).map_or(Bs::new(), set_of),
                        ff.get_follow_symbols(&t).map_or(Bs::new(), set_of),
                    )
                })
                .collect();
            (tr, got)
        }) {
            Ok(x) => x,
            Err(e) => return Err(Viol::new(format!("building the table panicked: {}", e))),
        };
        let predict: Vec<Bs> = (0..g.prods.len())
            .map(|p| {
                info.rule(
                    p,
                    &|i| {
                        let mut b = got[i].0;
                        let v = b.has(g.eps);
                        b.del(g.eps);
                        (b, v)
                    },
                    &|i| got[i].1,
                )
            })
            .collect();
        table_check(ctx, g, &info, &tr, &predict)
    })?;
    ctx.sample(|| {
        let l: Vec<String> = g
            .prods
            .iter()
            .enumerate()
            .map(|(i, p)| {
                format!(
                    "{}->{} on {{{}}}",
                    name(p.0),
                    show(&p.1),
                    show(&info.predict[i].list())
                )
            })
            .collect();
        format!("{} => {}", g.text(), l.join("; "))
    });
    // caller-supplied sets: the exact ones, and every one-element change of them
    if ctx.family.starts_with("scale") {
        return Ok(());
    }
    let base = exact_ff(&info);
    let terms: Vec<Sym> = info.terms.list().into_iter().filter(|s| *s != g.eps).collect();
    let mut variants: Vec<(String, FF)> = vec![("exact".into(), base.clone())];
    for s in &info.nts {
        for t in &terms {
            let mut v = base.clone();
            let e = &mut v.0.get_mut(s).unwrap().0;
            if e.has(*t) {
                e.del(*t)
            } else {
                e.put(*t)
            }
            variants.push((format!("FIRST({}) toggled {}", name(*s), name(*t)), v));
            let mut v = base.clone();
            let e = v.1.get_mut(s).unwrap();
            if e.has(*t) {
                e.del(*t)
            } else {
                e.put(*t)
            }
            variants.push((format!("FOLLOW({}) toggled {}", name(*s), name(*t)), v));
        }
        let mut v = base.clone();
        let e = &mut v.0.get_mut(s).unwrap().1;
        *e = !*e;
        variants.push((format!("FIRST({}) toggled epsilon", name(*s)), v));
    }
    for (label, ff) in variants {
        let predict: Vec<Bs> = (0..g.prods.len())
            .map(|p| {
                info.rule(
                    p,
                    &|i| ff.0[&info.nts[i]],
                    &|i| ff.1[&info.nts[i]],
                )
            })
            .collect();
        ctx.evals += 1;
        ctx.states += 1;
        ctx.count("supplied_set_variants");
        let tr = match ctx.real(|| {
            let cfg = build::<T>(g);
            let sets = supplied::<T>(&info, &ff);
            RecursiveDescentParserTransitions::from(&cfg, &sets)
        }) {
            Ok(x) => x,
            Err(e) => {
                return Err(
                    Viol::new(format!("building the table panicked: {}", e)).with("sets", label)
                )
            }
        };
        table_check(ctx, g, &info, &tr, &predict).map_err(|v| v.with("sets", label))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ parsing without solver

fn outcome<T: Sy>(r: &Result<Res<T>, String>) -> &'static str {
    match r {
        Ok(ParseResult::Ok(_)) => "tree",
        Ok(ParseResult::Err(_)) => "error",
        Ok(ParseResult::Fix(_)) => "fix",
        Err(_) => "panic",
    }
}

fn show_outcome<T: Sy>(r: &Result<Res<T>, String>) -> String {
    match r {
        Ok(x) => {
            let mut s = t_res(&c_res(x));
            if s.len() > 4000 {
                s.truncate(4000);
                s += "...";
            }
            s
        }
        Err(e) => format!("panic: {}", e),
    }
}

/// Is `n` a genuine derivation of consecutive tokens starting at `pos`?  Returns the end.
fn derivation<T: Sy>(g: &Gram, info: &Info, n: &Node<T>, toks: &[Sym], pos: usize) -> Result<usize, String> {
    let s = n.token.t_type.id();
    let lex = n.token.lex.as_ref().map(|l| l.0);
    if let Some(i) = info.nt(s) {
        if lex.is_some() {
            return Err(format!("inner node {} carries a lexeme", name(s)));
        }
        let matches = info.alts[i].iter().any(|p| {
            let r = &g.prods[*p].1;
            r.len() == n.child_nodes.len()
                && r.iter().zip(&n.child_nodes).all(|(a, b)| *a == b.token.t_type.id())
        });
        if !matches {
            let k: Vec<Sym> = n.child_nodes.iter().map(|c| c.token.t_type.id()).collect();
            return Err(format!("children of {} are [{}]: no such production", name(s), show(&k)));
        }
        let mut p = pos;
        for c in &n.child_nodes {
            p = derivation(g, info, c, toks, p)?;
        }
        return Ok(p);
    }
    if !n.child_nodes.is_empty() {
        return Err(format!("terminal leaf {} has children", name(s)));
    }
    if s == g.eps {
        if lex.is_some() {
            return Err("epsilon leaf carries a lexeme".into());
        }
        return Ok(pos);
    }
    if toks.get(pos) != Some(&s) {
        return Err(format!("leaf {} where the input has {:?} at {}", name(s), toks.get(pos).map(|t| name(*t)), pos));
    }
    if lex != Some(pos as u32) {
        return Err(format!("leaf {} at {} carries lexeme {:?}", name(s), pos, lex));
    }
    Ok(pos + 1)
}

fn derivation_c(g: &Gram, info: &Info, n: &CNode, toks: &[Sym], pos: usize) -> Result<usize, String> {
    if let Some(i) = info.nt(n.sym) {
        let ok = n.lex.is_none()
            && info.alts[i].iter().any(|p| {
                let r = &g.prods[*p].1;
                r.len() == n.kids.len() && r.iter().zip(&n.kids).all(|(a, b)| *a == b.sym)
            });
        if !ok {
            return Err(format!("parsed part {} is not a derivation", t_node(n)));
        }
        let mut p = pos;
        for c in &n.kids {
            p = derivation_c(g, info, c, toks, p)?;
        }
        return Ok(p);
    }
    if n.sym == g.eps {
        return if n.kids.is_empty() && n.lex.is_none() {
            Ok(pos)
        } else {
            Err("bad epsilon leaf".into())
        };
    }
    if n.kids.is_empty() && toks.get(pos) == Some(&n.sym) && n.lex == Some(pos as u32) {
        Ok(pos + 1)
    } else {
        Err(format!("parsed part {} does not match the input at {}", t_node(n), pos))
    }
}

fn same_tree<T: Sy>(m: &Local, info: &Info, toks: &[Sym], id: u32, n: &Node<T>) -> bool {
    let s = n.token.t_type.id();
    match &m.arena[id as usize] {
        MNode::Eps => s == info.g.eps && n.child_nodes.is_empty(),
        MNode::Tok(p) => {
            s == toks[*p]
                && n.child_nodes.is_empty()
                && n.token.lex.as_ref().map(|l| l.0) == Some(*p as u32)
        }
        MNode::Nt(x, kids) => {
            s == *x
                && n.child_nodes.len() == kids.len()
                && kids
                    .iter()
                    .zip(&n.child_nodes)
                    .all(|(k, c)| same_tree(m, info, toks, *k, c))
        }
    }
}

fn model_tree(m: &Local, info: &Info, toks: &[Sym], id: u32) -> CNode {
    match &m.arena[id as usize] {
        MNode::Eps => CNode {
            sym: info.g.eps,
            lex: None,
            kids: vec![],
        },
        MNode::Tok(p) => CNode {
            sym: toks[*p],
            lex: Some(*p as u32),
            kids: vec![],
        },
        MNode::Nt(x, k) => CNode {
            sym: *x,
            lex: None,
            kids: k.iter().map(|k| model_tree(m, info, toks, *k)).collect(),
        },
    }
}

/// C10: parsed ++ failed ++ pending spells a production, at every level.
fn aligned(g: &Gram, info: &Info, sym: Sym, f: &CFail) -> Result<(), String> {
    if f.sym != sym {
        return Err(format!("report for {} where {} failed", name(f.sym), name(sym)));
    }
    if info.nt(sym).is_none() {
        return if f.prods.is_empty() {
            Ok(())
        } else {
            Err(format!("failed productions reported for {}, which has none", name(sym)))
        };
    }
    let mut from = 0; // reports come in order: look on from the last one found
    for fp in &f.prods {
        let mut w: Vec<Sym> = fp
            .parsed
            .iter()
            .map(|p| match p {
                CParsed::Ok(n) => n.sym,
                CParsed::Fix(x) => x.sym,
            })
            .collect();
        w.push(fp.failed.sym);
        w.extend(&fp.pending);
        let i = info.nt(sym).unwrap();
        let k = info.alts[i].len();
        let at = (0..k).map(|d| (from + d) % k).find(|a| g.prods[info.alts[i][*a]].1 == w);
        from = at.map_or(0, |a| a + 1);
        if at.is_none() {
            return Err(format!(
                "failed production of {} reads [{}]: no such production; report {}",
                name(sym),
                show(&w),
                t_failprod(fp)
            ));
        }
        aligned(g, info, fp.failed.sym, &fp.failed)?;
    }
    Ok(())
}

/// C11: complete, ordered, and every failure real.
fn faithful(g: &Gram, info: &Info, toks: &[Sym], sym: Sym, pos: usize, f: &CFail, leaves: &mut u64) -> Result<(), String> {
    if f.sym != sym {
        return Err(format!("report for {} where {} failed", name(f.sym), name(sym)));
    }
    if info.nt(sym).is_none() {
        *leaves += 1;
        if !f.prods.is_empty() {
            return Err(format!("failed productions reported for {}, which has none", name(sym)));
        }
        if pos == 0 && sym == g.start {
            // an initial symbol without productions: nothing was tried
            return Ok(());
        }
        if sym == g.eps || toks.get(pos) == Some(&sym) {
            return Err(format!("{} reported as failing at {}, but it matches there", name(sym), pos));
        }
        return Ok(());
    }
    let c = info.cands(sym, toks.get(pos).copied());
    if c.len() != f.prods.len() {
        return Err(format!(
            "{} failed productions reported for {} at {}, {} were predicted",
            f.prods.len(),
            name(sym),
            pos,
            c.len()
        ));
    }
    if c.is_empty() {
        *leaves += 1;
    }
    for (p, fp) in c.iter().zip(&f.prods) {
        let r = &g.prods[*p].1;
        let k = fp.parsed.len();
        let mut at = pos;
        let shape = k < r.len()
            && fp.parsed.iter().zip(r).all(|(a, b)| matches!(a, CParsed::Ok(n) if n.sym == *b))
            && fp.failed.sym == r[k]
            && fp.pending[..] == r[k + 1..];
        if !shape {
            return Err(format!(
                "report {} does not describe {} -> {}",
                t_failprod(fp),
                name(sym),
                show(r)
            ));
        }
        for q in &fp.parsed {
            if let CParsed::Ok(n) = q {
                at = derivation_c(g, info, n, toks, at)?;
            }
        }
        faithful(g, info, toks, r[k], at, &fp.failed, leaves)?;
    }
    Ok(())
}

pub const KF_BACKTRACK: &str = "KF1";

fn parse(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    let prop = ctx.prop.clone();
    let applies = !info.left_recursive
        && match prop.as_str() {
            "C06" => info.end_marked() && info.ll1(),
            "C07" => info.end_marked(),
            _ => true,
        };
    if !applies {
        ctx.skipped += 1;
        return Ok(());
    }
    parse_t::<Y>(ctx, g, &info, job)?;
    if ctx.family == "sym-types" {
        parse_t::<K>(ctx, g, &info, job)?;
        parse_t::<Z>(ctx, g, &info, job)?;
    }
    Ok(())
}

fn parse_t<T: Sy>(ctx: &mut Ctx, g: &Gram, info: &Info, job: &Job) -> Check {
    let prop = ctx.prop.clone();
    let prop = prop.as_str();
    let cfg = match ctx.real(|| build::<T>(g)) {
        Ok(c) => c,
        Err(e) => return Err(Viol::new(format!("building the grammar panicked: {}", e))),
    };
    let parser: Parser<T, NoSolver> = match ctx.real(|| RecursiveDescentParser::from_grammar(&cfg)) {
        Ok(p) => p,
        Err(e) => return Err(Viol::new(format!("building the parser panicked: {}", e))),
    };
    if prop == "C09" {
        for kind in 0..4 {
            let r = ctx.real(|| parser.parse_from_tokens(Feed::<T>::new(&[], kind)));
            ctx.evals += 1;
            ctx.states += 1;
            if r.is_ok() {
                return Err(Viol::new("an empty token sequence was not refused").with("input", ""));
            }
        }
    }
    // ways of delivering the tokens (see Feed): all for C09, in turn for the others
    let turn = g.fingerprint() as usize;
    for (i, w) in job.inputs.iter().enumerate() {
        if w.is_empty() {
            continue;
        }
        ctx.note_input(w);
        let all = (prop == "C09" || ctx.replay) && w.len() < 2000;
        for kind in 0..4 {
            if !all && kind != (turn + i) % 4 {
                continue;
            }
            ctx.evals += 1;
            let r = ctx.real(|| parser.parse_from_tokens(Feed::<T>::new(w, kind as u8)));
            one_parse(ctx, prop, g, info, w, &r).map_err(|v| {
                v.with("input", show(w))
                    .with("tokens delivered", ["as a vector", "without size hint", "with a useless upper bound", "by an iterator with items behind its end"][kind])
                    .with("got", show_outcome(&r))
            })?;
        }
    }
    if prop != "C09" {
        with_solvers(ctx, prop, g, info, &cfg, job, turn)?;
    }
    Ok(())
}

/// What holds of results holds with a solver installed, too: one that declines, and ones that
/// fix by a rule (see `reply`), in turn.  For reports, those given to the solver count as well.
fn with_solvers<T: Sy>(ctx: &mut Ctx, prop: &str, g: &Gram, info: &Info, cfg: &Cfg<T>, job: &Job, turn: usize) -> Check {
    let mut h = Script::new(&[]);
    h.keep_log = matches!(prop, "C10" | "C11");
    let with: Parser<T, Script> = match ctx.real(|| RecursiveDescentParser::from_grammar_and_solver(cfg, h.clone())) {
        Ok(p) => p,
        Err(e) => return Err(Viol::new(format!("building the parser panicked: {}", e))),
    };
    for (i, w) in job.inputs.iter().enumerate() {
        if w.is_empty() || w.len() > 64 {
            continue;
        }
        ctx.note_input(w);
        for rule in 0..6 {
            if !ctx.replay && !ctx.thorough && rule != (turn + i) % 6 {
                continue;
            }
            let script = if rule == 0 { vec![] } else { vec![Some(PERSIST + rule)] };
            *h.answers.borrow_mut() = script;
            h.log.borrow_mut().clear();
            ctx.evals += 1;
            ctx.count("parses_with_a_solver");
            let r = ctx.real(|| with.parse_from_tokens(tokens::<T>(w).into_iter()));
            let log = std::mem::take(&mut *h.log.borrow_mut());
            let mut bad = if r.is_ok() { one_parse(ctx, prop, g, info, w, &r) } else { Ok(()) };
            if bad.is_ok() {
                bad = log.iter().try_for_each(|c| asked_report(ctx, prop, g, info, w, c));
            }
            bad.map_err(|v| {
                v.with("input", show(w))
                    .with("solver", if rule == 0 { "declines".into() } else { format!("answers by rule {}", rule) })
                    .with("asked", t_calls(&log))
                    .with("got", show_outcome(&r))
            })?;
            if log.is_empty() && rule == 0 {
                break;
            }
        }
    }
    Ok(())
}

fn has_fix(f: &CFailProd) -> bool {
    f.parsed.iter().any(|p| matches!(p, CParsed::Fix(_))) || f.failed.prods.iter().any(has_fix)
}

/// The failed productions shown to the solver are reports too.
fn asked_report(ctx: &mut Ctx, prop: &str, g: &Gram, info: &Info, w: &[Sym], c: &Call) -> Check {
    if !matches!(prop, "C10" | "C11") || c.fails.is_empty() {
        return Ok(());
    }
    // the request does not name its symbol: there has to be one that fits
    let mut why = String::from("no symbol has these productions");
    for s in &info.nts {
        let f = CFail { sym: *s, prods: c.fails.clone() };
        let r = match prop {
            "C10" => aligned(g, info, *s, &f),
            _ if c.fails.iter().any(has_fix) => Ok(()),
            _ => faithful(g, info, w, *s, c.pos, &f, &mut 0),
        };
        match r {
            Ok(()) => {
                ctx.count("reports_given_to_the_solver");
                return Ok(());
            }
            Err(e) => {
                let i = info.nt(*s).unwrap();
                let fits = |p: &CFailProd| info.alts[i].iter().any(|a| g.prods[*a].1.len() == p.parsed.len() + 1 + p.pending.len());
                if c.fails.iter().all(fits) {
                    why = e;
                }
            }
        }
    }
    Err(Viol::new(format!("a report given to the solver does not hold: {}", why)))
}

fn one_parse<T: Sy>(
    ctx: &mut Ctx,
    prop: &str,
    g: &Gram,
    info: &Info,
    w: &[Sym],
    r: &Result<Res<T>, String>,
) -> Check {
    ctx.states += 1;
    ctx.steps += w.len() as u64;
    ctx.count(&["outcome_", outcome(r)].concat());
    if ctx.samples.len() < 8 {
        ctx.sample(|| format!("{} | {} => {}", g.text(), show(w), show_outcome(r)));
    }
    match prop {
        "C05" => {
            if let Ok(ParseResult::Ok(t)) = r {
                ctx.nontrivial += 1;
                if t.root.token.t_type.id() != g.start {
                    return Err(Viol::new("the root is not the initial symbol"));
                }
                derivation(g, info, &t.root, w, 0).map_err(Viol::new)?;
            }
            Ok(())
        }
        "C06" | "C07" => {
            let want = info.sentence(w);
            let got = matches!(r, Ok(ParseResult::Ok(_)));
            if want {
                ctx.nontrivial += 1;
            }
            if want == got {
                return Ok(());
            }
            if prop == "C07" && want && matches!(r, Ok(ParseResult::Err(_)) | Ok(ParseResult::Fix(_))) {
                // listed finding KF1: only remaining alternatives of completed siblings are
                // retried, never alternatives inside them.  Anything that this scheme does
                // find must be accepted.
                let mut m = Local::new(info, w);
                let found = m.parse();
                ctx.steps += m.steps;
                if found.is_none() {
                    ctx.known(KF_BACKTRACK, || {
                        format!("{} | {} : sentence rejected", g.text(), show(w))
                    });
                    return Ok(());
                }
            }
            Err(Viol::new(if want {
                "a sentence of the grammar was not accepted"
            } else {
                "tokens that are not a sentence were accepted"
            }))
        }
        "C08" => {
            let mut m = Local::new(info, w);
            let found = m.parse();
            ctx.steps += m.steps;
            ctx.add("model_states", m.states);
            if m.retries > 0 {
                ctx.nontrivial += 1;
            }
            match (found, r) {
                (Some((_, id)), Ok(ParseResult::Ok(t))) => {
                    if same_tree(&m, info, w, id, &t.root) {
                        Ok(())
                    } else {
                        Err(Viol::new("not the tree that declaration order finds first")
                            .with("expected", t_node(&model_tree(&m, info, w, id))))
                    }
                }
                (Some((_, id)), _) => Err(Viol::new("an alternative that matches was not found")
                    .with("expected", t_node(&model_tree(&m, info, w, id)))),
                (None, Ok(ParseResult::Ok(_))) => {
                    Err(Viol::new("accepted although the order of alternatives finds no match"))
                }
                (None, _) => Ok(()),
            }
        }
        "C09" => {
            ctx.nontrivial += 1;
            match r {
                Ok(ParseResult::Ok(_)) | Ok(ParseResult::Err(_)) => Ok(()),
                Ok(ParseResult::Fix(_)) => Err(Viol::new("a fix was reported without a solver")),
                Err(e) => Err(Viol::new(format!("parsing panicked: {}", e))),
            }
        }
        "C10" => {
            if let Ok(ParseResult::Err(f)) = r {
                let f = c_fail(f);
                if f.prods.iter().any(|p| {
                    p.parsed.iter().any(|x| matches!(x, CParsed::Ok(n) if !n.kids.is_empty()))
                        || !p.failed.prods.is_empty()
                }) {
                    ctx.nontrivial += 1;
                }
                aligned(g, info, g.start, &f).map_err(Viol::new)?;
            }
            Ok(())
        }
        "C11" => {
            if let Ok(ParseResult::Err(f)) = r {
                let f = c_fail(f);
                if f.prods.iter().any(has_fix) {
                    // a solver's fix goes on wherever it says: judged by C14
                    return Ok(());
                }
                let mut leaves = 0;
                faithful(g, info, w, g.start, 0, &f, &mut leaves).map_err(Viol::new)?;
                ctx.steps += leaves;
                if leaves > 1 {
                    ctx.nontrivial += 1;
                }
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ C19

/// The sets that a caller reads from one object and gives to another.
fn copied<T: Sy>(info: &Info, ff: &FirstFollowSymbols<T>, more: bool) -> FirstFollowSymbols<T> {
    let mut first: HashMap<T, HashSet<T>> = HashMap::new();
    let mut follow: HashMap<T, HashSet<T>> = HashMap::new();
    for s in info.terms.list().iter().chain(info.nts.iter()) {
        let t = T::mk(*s);
        if let Some(x) = ff.get_first_symbols(&t) {
            first.insert(t.clone(), x.iter().cloned().collect());
        }
        if let Some(x) = ff.get_follow_symbols(&t) {
            follow.insert(t.clone(), x.iter().cloned().collect());
        }
    }
    if more {
        // entries for symbols the grammar does not have
        for s in [901, 902] {
            first.insert(T::mk(s), [T::mk(s), T::mk(info.g.eps), T::mk(903), T::mk(TA)].into_iter().collect());
            follow.insert(T::mk(s), [T::mk(TA), T::mk(904)].into_iter().collect());
        }
    }
    FirstFollowSymbols::new(first, follow)
}

fn given_sets(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    match ctx.family.as_str() {
        "sym-types" => {
            given_sets_t::<K>(ctx, g, job)?;
            given_sets_t::<Z>(ctx, g, job)
        }
        _ => given_sets_t::<Y>(ctx, g, job),
    }
}

fn given_sets_t<T: Sy>(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    if info.left_recursive {
        ctx.skipped += 1;
        return Ok(());
    }
    let built = ctx.real(|| (build::<T>(g), build::<T>(g)));
    let (cfg, twin) = match built {
        Ok(c) => c,
        Err(e) => return Err(Viol::new(format!("building the grammar panicked: {}", e))),
    };
    // (a) every way to make a parser of the grammar parses alike
    let made = ctx.real(|| {
        let a: Parser<T, NoSolver> = RecursiveDescentParser::from_grammar(&cfg);
        let ff = FirstFollowSymbols::from(&cfg);
        let b: Parser<T, NoSolver> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(&cfg, &ff);
        let c: Parser<T, NoSolver> = {
            let ff = FirstFollowSymbols::from(&twin);
            RecursiveDescentParser::from_grammar_and_first_follow_symbols(&cfg, &ff)
        };
        let d: Parser<T, NoSolver> = {
            let ff = copied(&info, &ff, false);
            RecursiveDescentParser::from_grammar_and_first_follow_symbols(&cfg, &ff)
        };
        let e: Parser<T, Steady> = RecursiveDescentParser::from_grammar_and_solver(&cfg, Steady(0));
        // the sets serve several parsers
        let f: Parser<T, NoSolver> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(&twin, &ff);
        let h: Parser<T, NoSolver> = {
            let ff = copied(&info, &ff, true);
            RecursiveDescentParser::from_grammar_and_first_follow_symbols(&cfg, &ff)
        };
        ([a, b, c, d, f, h], e)
    });
    let (alike, declined) = match made {
        Ok(x) => x,
        Err(e) => return Err(Viol::new(format!("building a parser panicked: {}", e))),
    };
    let ways = ["from the grammar", "from the grammar and its sets", "from the sets of an equal grammar", "from a copy of the sets", "from an equal grammar and these sets", "from a copy of the sets with more symbols", "with a solver that declines"];
    for w in job.inputs.iter().filter(|w| !w.is_empty()) {
        ctx.note_input(w);
        let mut base: Option<Result<CRes, ()>> = None;
        for (i, way) in ways.iter().enumerate() {
            ctx.evals += 1;
            ctx.states += 1;
            let r = if i < 6 {
                ctx.real(|| alike[i].parse_from_tokens(tokens::<T>(w).into_iter())).map(|r| c_res(&r))
            } else {
                ctx.real(|| declined.parse_from_tokens(tokens::<T>(w).into_iter())).map(|r| c_res(&r))
            };
            let r = r.map_err(|_| ());
            match &base {
                None => base = Some(r),
                Some(b) if *b == r => {}
                Some(b) => {
                    return Err(Viol::new(format!("a parser made {} parses in another way than one made {}", way, ways[0]))
                        .with("input", show(w))
                        .with("got", format!("{:?}", r))
                        .with("expected", format!("{:?}", b)))
                }
            }
        }
    }
    drop(alike);
    // (b) sets that are not those of the grammar: each element changed, and pairs of changes
    let base = exact_ff(&info);
    let terms: Vec<Sym> = info.terms.list().into_iter().filter(|s| *s != g.eps).collect();
    #[derive(Clone, Copy)]
    enum Edit {
        First(Sym, Sym),
        Follow(Sym, Sym),
        Eps(Sym),
    }
    let mut edits = vec![];
    for s in &info.nts {
        for t in &terms {
            edits.push(Edit::First(*s, *t));
            edits.push(Edit::Follow(*s, *t));
        }
        edits.push(Edit::Eps(*s));
    }
    let mut picks: Vec<Vec<Edit>> = vec![vec![]];
    picks.extend(edits.iter().map(|e| vec![*e]));
    if job.depth >= 2 {
        for (i, a) in edits.iter().enumerate() {
            for b in &edits[i + 1..] {
                picks.push(vec![*a, *b]);
            }
        }
    }
    let mut jobs: Vec<(String, FF)> = vec![];
    for p in picks {
        let mut v = base.clone();
        let mut label = String::from("exact sets");
        for e in p {
            let flip = |b: &mut Bs, t: Sym| if b.has(t) { b.del(t) } else { b.put(t) };
            match e {
                Edit::First(s, t) => {
                    flip(&mut v.0.get_mut(&s).unwrap().0, t);
                    label += &format!(", FIRST({}) toggled {}", name(s), name(t));
                }
                Edit::Follow(s, t) => {
                    flip(v.1.get_mut(&s).unwrap(), t);
                    label += &format!(", FOLLOW({}) toggled {}", name(s), name(t));
                }
                Edit::Eps(s) => {
                    let e = &mut v.0.get_mut(&s).unwrap().1;
                    *e = !*e;
                    label += &format!(", FIRST({}) toggled epsilon", name(s));
                }
            }
        }
        jobs.push((label, v));
    }
    let (mut none, mut all) = (base.clone(), base.clone());
    for s in &info.nts {
        let every: Bs = {
            let mut b = Bs::new();
            terms.iter().for_each(|t| b.put(*t));
            b
        };
        none.0.insert(*s, (Bs::new(), false));
        none.1.insert(*s, Bs::new());
        all.0.insert(*s, (every, true));
        all.1.insert(*s, every);
    }
    jobs.push(("empty sets".into(), none));
    jobs.push(("full sets".into(), all));
    let mut differs = 0;
    let mut given = Info::new(g);
    for (label, ff) in jobs {
        given.predict = (0..g.prods.len()).map(|p| info.rule(p, &|i| ff.0[&info.nts[i]], &|i| ff.1[&info.nts[i]])).collect();
        if (0..g.prods.len()).any(|p| given.predict[p].list() != info.predict[p].list()) {
            differs += 1;
        }
        ctx.count("given_sets");
        let parser: Parser<T, NoSolver> = match ctx.real(|| {
            let sets = supplied::<T>(&info, &ff);
            RecursiveDescentParser::from_grammar_and_first_follow_symbols(&cfg, &sets)
        }) {
            Ok(x) => x,
            Err(e) => return Err(Viol::new(format!("building a parser panicked: {}", e)).with("sets", label)),
        };
        for w in job.inputs.iter().filter(|w| !w.is_empty()) {
            ctx.note_input(w);
            ctx.evals += 1;
            ctx.states += 1;
            let r = ctx.real(|| parser.parse_from_tokens(tokens::<T>(w).into_iter()));
            let mut m = Local::new(&given, w);
            let found = m.parse();
            ctx.steps += m.steps;
            let bad = match (found, &r) {
                (Some((_, id)), Ok(ParseResult::Ok(t))) => {
                    if same_tree(&m, &given, w, id, &t.root) {
                        None
                    } else {
                        Some("not the tree found first with these sets".to_string())
                    }
                }
                (None, Ok(ParseResult::Err(f))) => {
                    let f = c_fail(f);
                    let mut leaves = 0;
                    faithful(g, &given, w, g.start, 0, &f, &mut leaves).err()
                }
                (Some(_), _) => Some("an alternative that matches with these sets was not found".to_string()),
                (None, _) => Some("accepted although no alternative matches with these sets".to_string()),
            };
            if let Some(b) = bad {
                return Err(Viol::new(b)
                    .with("sets", label)
                    .with("input", show(w))
                    .with("got", show_outcome(&r)));
            }
        }
    }
    if differs > 0 {
        ctx.nontrivial += 1;
    }
    ctx.sample(|| format!("{} | {} sets with other predictions", g.text(), differs));
    Ok(())
}

// ------------------------------------------------------------------ C12, C13, C14

fn t_calls(l: &[Call]) -> String {
    l.iter()
        .map(|c| {
            format!(
                "{}@{}[{}]",
                if c.single { "single" } else { "multi" },
                c.pos,
                c.fails.iter().map(t_failprod).collect::<Vec<_>>().join(" ")
            )
        })
        .collect::<Vec<_>>()
        .join(" ; ")
}

fn t_script(s: &[Option<usize>]) -> String {
    s.iter()
        .map(|a| match a {
            None => "decline".to_string(),
            Some(p) if *p > PERSIST => format!("rule:{}", p - PERSIST),
            Some(p) => format!("fix@{}", p),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn parse_script(t: &str) -> Vec<Option<usize>> {
    t.split_whitespace()
        .map(|a| {
            if a == "decline" {
                None
            } else if let Some(k) = a.strip_prefix("rule:") {
                Some(PERSIST + k.parse::<usize>().expect("script"))
            } else {
                Some(a.trim_start_matches("fix@").parse().expect("script"))
            }
        })
        .collect()
}

fn solver(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    match ctx.family.as_str() {
        "sym-types" => {
            solver_t::<K>(ctx, g, job)?;
            solver_t::<Z>(ctx, g, job)
        }
        _ => solver_t::<Y>(ctx, g, job),
    }
}

fn solver_t<T: Sy>(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    if info.left_recursive {
        ctx.skipped += 1;
        return Ok(());
    }
    let cfg = match ctx.real(|| build::<T>(g)) {
        Ok(c) => c,
        Err(e) => return Err(Viol::new(format!("building the grammar panicked: {}", e))),
    };
    let plain: Parser<T, NoSolver> = match ctx.real(|| RecursiveDescentParser::from_grammar(&cfg)) {
        Ok(p) => p,
        Err(e) => return Err(Viol::new(format!("building the parser panicked: {}", e))),
    };
    let handle = Script::new(&[]);
    let with: Parser<T, Script> =
        match ctx.real(|| RecursiveDescentParser::from_grammar_and_solver(&cfg, handle.clone())) {
            Ok(p) => p,
            Err(e) => return Err(Viol::new(format!("building the parser panicked: {}", e))),
        };
    for w in job.inputs {
        if w.is_empty() {
            continue;
        }
        ctx.note_input(w);
        let r = solver_input(ctx, g, &info, &plain, &with, &handle, w, job);
        r.map_err(|v| v.with("input", show(w)))?;
    }
    Ok(())
}

/// One run of the real parser under an answer script.
fn scripted<T: Sy>(
    ctx: &mut Ctx,
    with: &Parser<T, Script>,
    h: &Script,
    w: &[Sym],
    script: &[Option<usize>],
) -> (Result<CRes, String>, Vec<Call>) {
    *h.answers.borrow_mut() = script.to_vec();
    h.log.borrow_mut().clear();
    ctx.evals += 1;
    ctx.states += 1;
    let r = ctx.real(|| with.parse_from_tokens(tokens::<T>(w).into_iter()));
    let log = std::mem::take(&mut *h.log.borrow_mut());
    (r.map(|x| c_res(&x)), log)
}

fn t_or(r: &Result<CRes, String>) -> String {
    match r {
        Ok(x) => t_res(x),
        Err(e) => format!("panic: {}", e),
    }
}

fn solver_input<T: Sy>(
    ctx: &mut Ctx,
    g: &Gram,
    info: &Info,
    plain: &Parser<T, NoSolver>,
    with: &Parser<T, Script>,
    h: &Script,
    w: &[Sym],
    job: &Job,
) -> Check {
    let prop = ctx.prop.clone();
    if prop == "C12" {
        let base = ctx
            .real(|| plain.parse_from_tokens(tokens::<T>(w).into_iter()))
            .map(|r| c_res(&r));
        ctx.evals += 1;
        let base = match base {
            Ok(b) => b,
            Err(_) => {
                ctx.count("plain_parse_panics");
                return Ok(());
            }
        };
        // a solver that declines, and solvers that are eager to fix at every position
        let mut scripts: Vec<Vec<Option<usize>>> = vec![vec![]];
        if let CRes::Ok(_) = base {
            for p in 0..=w.len() {
                scripts.push(vec![Some(p); 64]);
            }
        }
        for s in scripts {
            let (r, log) = scripted(ctx, with, h, w, &s);
            ctx.steps += 1 + log.len() as u64;
            if let CRes::Ok(_) = base {
                if !log.is_empty() {
                    return Err(Viol::new(format!(
                        "the solver was consulted {} time(s) on tokens that parse without it: {}",
                        log.len(),
                        t_calls(&log)
                    ))
                    .with("script", t_script(&s[..s.len().min(4)])));
                }
                ctx.nontrivial += (s.len() > 0) as u64;
            } else {
                ctx.nontrivial += (!log.is_empty()) as u64;
            }
            if r.as_ref().ok() != Some(&base) {
                return Err(Viol::new(if s.is_empty() {
                    "a declining solver changed the result"
                } else {
                    "the solver changed the result of tokens that parse without it"
                })
                .with("script", t_script(&s[..s.len().min(4)]))
                .with("got", t_or(&r))
                .with("expected", t_res(&base)));
            }
            ctx.sample(|| format!("{} | {} | solver {} => {}", g.text(), show(w), t_script(&s[..s.len().min(3)]), t_or(&r)));
        }
        return Ok(());
    }
    // C13, C14: every answer sequence with at most job.deviations fixes
    if let Some(s) = &job.script {
        return solver_run(ctx, &prop, g, info, with, h, w, s).map(|_| ());
    }
    let mut todo: Vec<Vec<Option<usize>>> = vec![vec![]];
    while let Some(s) = todo.pop() {
        let calls = solver_run(ctx, &prop, g, info, with, h, w, &s)?;
        let used = s.iter().filter(|a| a.is_some()).count();
        if used >= job.deviations {
            continue;
        }
        for i in s.len()..calls.len() {
            let pos = calls[i];
            let opts: Vec<usize> = if job.all_positions {
                (0..=w.len() + 1).chain([(1 << 40) + 1]).collect()
            } else {
                let mut o = vec![pos, pos + 1, w.len()];
                o.dedup();
                if o.len() == 3 && o[0] == o[2] {
                    o.pop();
                }
                o
            };
            for p in opts {
                let mut n = s.clone();
                n.resize(i, None);
                n.push(Some(p));
                todo.push(n);
            }
        }
    }
    // and solvers that answer every request by a rule (see reply)
    for rule in 1..=5 {
        solver_run(ctx, &prop, g, info, with, h, w, &[Some(PERSIST + rule)])?;
    }
    Ok(())
}

fn solver_run<T: Sy>(
    ctx: &mut Ctx,
    prop: &str,
    g: &Gram,
    info: &Info,
    with: &Parser<T, Script>,
    h: &Script,
    w: &[Sym],
    s: &[Option<usize>],
) -> Result<Vec<usize>, Viol> {
    let mut m = SolvModel::new(info, w, s);
    let want = m.run();
    ctx.steps += m.steps + m.log.len() as u64;
    let (r, log) = scripted(ctx, with, h, w, s);
    ctx.count(match &want {
        CRes::Ok(_) => "outcome_tree",
        CRes::Err(_) => "outcome_error",
        CRes::Fix(_) => "outcome_fix",
    });
    ctx.add("solver_calls", m.log.len() as u64);
    if !m.log.is_empty() {
        ctx.nontrivial += 1;
        ctx.sample(|| {
            format!(
                "{} | {} | answers [{}] => calls {} => {}",
                g.text(),
                show(w),
                t_script(s),
                t_calls(&m.log),
                t_res(&want)
            )
        });
    }
    let bad = if prop == "C13" {
        log != m.log
    } else {
        // where parsing went on after a fix also shows in the position of the next request
        let elsewhere = log.len() == m.log.len() && log.iter().zip(&m.log).any(|(a, b)| a.pos != b.pos);
        r.as_ref().ok() != Some(&want) || (elsewhere && !s.is_empty())
    };
    if bad {
        return Err(Viol::new(if prop == "C13" {
            "the solver was not consulted as documented"
        } else {
            "the fix was not adopted as documented"
        })
        .with("script", t_script(s))
        .with("calls", t_calls(&log))
        .with("expected_calls", t_calls(&m.log))
        .with("got", t_or(&r))
        .with("expected", t_res(&want)));
    }
    Ok(m.log.iter().map(|c| c.pos).collect())
}

// ------------------------------------------------------------------ C15

pub fn c_out<T: Sy>(r: Result<Res<T>, String>) -> Result<CRes, ()> {
    r.map(|r| c_res(&r)).map_err(|_| ())
}

fn history(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    if info.left_recursive {
        ctx.skipped += 1;
        return Ok(());
    }
    if ctx.family == "generations" {
        return generations(ctx, g, &job.inputs);
    }
    let cfg = match ctx.real(|| build::<Y>(g)) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let inputs: Vec<&Vec<Sym>> = job.inputs.iter().filter(|w| !w.is_empty()).collect();
    // fresh results: own grammar object, own parser, one parse
    let mut fresh: Vec<Result<CRes, ()>> = vec![];
    for w in &inputs {
        let r = ctx.real(|| {
            let c = build::<Y>(g);
            let p: Parser<Y, NoSolver> = RecursiveDescentParser::from_grammar(&c);
            p.parse_from_tokens(tokens::<Y>(w).into_iter())
        });
        fresh.push(c_out(r));
    }
    let distinct: HashSet<String> = fresh.iter().map(|r| format!("{:?}", r)).collect();
    ctx.add("distinct_outcomes_over_inputs", distinct.len() as u64);
    let interesting = distinct.len() > 1;
    // the same parse as the first thing a process does: this process has by now parsed a
    // great many other inputs of other grammars
    let curated = ctx.family.starts_with("curated");
    if curated || job.script.is_some() || ctx.grammars % 50 == 7 {
        for (i, w) in inputs.iter().enumerate() {
            if let Some(alone) = in_own_process(g, w) {
                ctx.count("parses_repeated_in_a_process_of_their_own");
                ctx.evals += 1;
                ctx.steps += 1;
                if alone != format!("{:?}", fresh[i]) {
                    return Err(Viol::new("a parse result depends on what this process did before")
                        .with("history", format!("{} grammars explored before this one", ctx.grammars - 1))
                        .with("input", show(w))
                        .with("got", format!("{:?}", fresh[i]))
                        .with("in a fresh process", alone));
                }
            }
        }
    }
    if curated || job.script.is_some() {
        many_live(ctx, g, &cfg, &inputs, &fresh)?;
    }
    // parsers built the other ways behave the same on every input
    let ff_exact = exact_ff(&info);
    for way in 0..3 {
        let own = match ctx.real(|| match way {
            0 => FirstFollowSymbols::from(&cfg),
            1 => supplied::<Y>(&info, &ff_exact),
            _ => FirstFollowSymbols::from(&build::<Y>(g)),
        }) {
            Ok(f) => f,
            Err(_) => continue,
        };
        let p: Parser<Y, NoSolver> =
            match ctx.real(|| RecursiveDescentParser::from_grammar_and_first_follow_symbols(&cfg, &own)) {
                Ok(p) => p,
                Err(e) => {
                    return Err(Viol::new(format!(
                        "building a parser from supplied sets panicked: {}",
                        e
                    )))
                }
            };
        for (i, w) in inputs.iter().enumerate() {
            ctx.evals += 1;
            ctx.states += 1;
            ctx.steps += 1;
            let r = c_out(ctx.real(|| p.parse_from_tokens(tokens::<Y>(w).into_iter())));
            if r != fresh[i] {
                return Err(Viol::new("a parser built from supplied first/follow sets differs")
                    .with("input", show(w))
                    .with("got", format!("{:?}", r))
                    .with("expected", format!("{:?}", fresh[i])));
            }
        }
    }
    // histories: operations are "parse input i with P", "parse input i with Q" (Q shares the
    // grammar object), "rebuild P", "P gets no tokens" (a panic); every sequence up to job.depth on fresh objects
    let k = inputs.len();
    let ops = 2 * k + 2;
    let mut seq = vec![0usize; job.depth];
    loop {
        history_run(ctx, g, &cfg, &inputs, &fresh, &seq)?;
        if interesting {
            ctx.nontrivial += 1;
        }
        let mut i = 0;
        while i < seq.len() {
            seq[i] += 1;
            if seq[i] < ops {
                break;
            }
            seq[i] = 0;
            i += 1;
        }
        if i == seq.len() {
            break;
        }
    }
    // one long history on the same objects, covering every ordered pair of operations
    let mut long = vec![];
    for a in 0..2 * k {
        for b in 0..2 * k {
            long.push(a);
            long.push(b);
        }
    }
    let marathon = job.script.is_some() || ctx.family.starts_with("curated");
    // long results make long marathons slow
    let bulk = fresh.iter().map(|r| format!("{:?}", r).len()).max().unwrap_or(0) > 2000;
    let enough = match (marathon, ctx.thorough) {
        (true, false) if bulk => 20_000,
        (true, false) => 140_000,
        (true, true) => 1_000_000,
        (false, false) => 300,
        (false, true) => 1100,
    };
    while long.len() < enough && !long.is_empty() {
        let l = long.clone();
        long.extend(l);
    }
    history_run(ctx, g, &cfg, &inputs, &fresh, &long)?;
    // histories of parsers with a solver (P) and without (Q) on the same grammar object
    if k > 0 {
        for kind in 0..4 {
            let mut fresh_s = vec![];
            for w in &inputs {
                fresh_s.push(c_out(ctx.real(|| {
                    let c = build::<Y>(g);
                    let p: Parser<Y, Steady> = RecursiveDescentParser::from_grammar_and_solver(&c, Steady(kind));
                    p.parse_from_tokens(tokens::<Y>(w).into_iter())
                })));
            }
            let depth = job.depth.min(3);
            let mut seq = vec![0usize; depth];
            let mut next = true;
            while next {
                solver_history(ctx, &cfg, kind, &inputs, &fresh, &fresh_s, &seq)?;
                next = false;
                for i in 0..depth {
                    seq[i] += 1;
                    if seq[i] < 2 * k {
                        next = true;
                        break;
                    }
                    seq[i] = 0;
                }
            }
            let n = match (marathon, ctx.thorough) {
                (true, false) if bulk => 5_000,
                (true, false) => 70_000,
                (true, true) => 300_000,
                _ => 200,
            };
            let short: Vec<usize> = long.iter().copied().take(n).collect();
            solver_history(ctx, &cfg, kind, &inputs, &fresh, &fresh_s, &short)?;
        }
    }
    ctx.sample(|| format!("{} | all histories of length {} over inputs {:?}", g.text(), job.depth, inputs.iter().map(|w| show(w)).collect::<Vec<_>>()));
    Ok(())
}

/// A whole life: grammar, parsers without and with a solver, all inputs; then everything is dropped.
#[inline(never)]
fn life(g: &Gram, inputs: &[Vec<Sym>], again: bool) -> Result<Vec<String>, String> {
    let r = std::panic::catch_unwind(|| {
        crate::leak::reusing(again, || {
            let c = build::<Y>(g);
            let p: Parser<Y, NoSolver> = RecursiveDescentParser::from_grammar(&c);
            let s: Parser<Y, Steady> = RecursiveDescentParser::from_grammar_and_solver(&c, Steady(1));
            let mut out = vec![];
            for w in inputs {
                let r = p.parse_from_tokens(lazy::<Y>(w));
                out.push(crate::leak::reusing(false, || format!("{:?}", c_out(Ok(r)))));
                let r = s.parse_from_tokens(lazy::<Y>(w));
                out.push(crate::leak::reusing(false, || format!("{:?}", c_out(Ok(r)))));
            }
            out
        })
    });
    r.map_err(|_| "panic".to_string())
}

/// The life of `g` alone in this process, for `mc life`.
pub fn life_alone(g: &Gram, inputs: &[Vec<Sym>]) -> String {
    format!("{:?}", life(g, inputs, true))
}

/// The life of `g` after the lives of others.
fn generations(ctx: &mut Ctx, g: &Gram, inputs: &[Vec<Sym>]) -> Check {
    let mut args = vec!["life".to_string(), g.text()];
    args.extend(inputs.iter().map(|w| show(w)));
    let alone = std::env::current_exe()
        .ok()
        .and_then(|e| std::process::Command::new(e).args(&args).output().ok())
        .filter(|o| o.status.success())
        .map(|o| String::from_utf8_lossy(&o.stdout).trim_end().to_string());
    let Some(alone) = alone else {
        return Ok(()); // it died; the checks of its parses in this process decide
    };
    ctx.nontrivial += 1;
    ctx.count("lives_repeated_in_a_process_of_their_own");
    let all = crate::fam::generations();
    let mut judge = |ctx: &mut Ctx, history: String, again: bool| -> Check {
        let r = ctx.real(|| life(g, inputs, again)).unwrap_or_else(Err);
        let r = format!("{:?}", r);
        ctx.evals += inputs.len() as u64 * 2;
        ctx.steps += 1;
        ctx.states += 1;
        if r != alone {
            return Err(Viol::new("what a parser does depends on those made, used and dropped before")
                .with("history", history)
                .with("inputs", inputs.iter().map(|w| show(w)).collect::<Vec<_>>().join(" , "))
                .with("got", r)
                .with("in a process of its own", alone.clone()));
        }
        Ok(())
    };
    for again in [true, false] {
        for (before, w) in &all {
            for times in 1..4 {
                for _ in 0..times {
                    let _ = ctx.real(|| life(before, w, again));
                }
                judge(ctx, format!("{} time(s) {}", times, before.text()), again)?;
            }
        }
        for (before, w) in all.iter().chain(all.iter().rev()) {
            let _ = ctx.real(|| life(before, w, again));
        }
        judge(ctx, "all in a row, and back".to_string(), again)?;
    }
    ctx.sample(|| format!("{} | after each of {} others", g.text(), all.len()));
    Ok(())
}

/// Many parsers of equal and of shared grammar objects, alive together, built and dropped in
/// different orders.
fn many_live(ctx: &mut Ctx, g: &Gram, cfg: &Cfg<Y>, inputs: &[&Vec<Sym>], fresh: &[Result<CRes, ()>]) -> Check {
    let n = if ctx.thorough { 1500 } else { 300 };
    let own: Vec<Cfg<Y>> = match ctx.real(|| (0..20).map(|_| build::<Y>(g)).collect()) {
        Ok(o) => o,
        Err(_) => return Ok(()),
    };
    let mut live: Vec<Parser<Y, NoSolver>> = vec![];
    let mut step = 0usize;
    for phase in 0..4usize {
        for j in 0..n {
            step += 1;
            match phase {
                0 => match ctx.real(|| match j % 3 {
                    0 => RecursiveDescentParser::from_grammar(cfg),
                    1 => RecursiveDescentParser::from_grammar(&own[j % own.len()]),
                    _ => RecursiveDescentParser::from_grammar_and_first_follow_symbols(cfg, &FirstFollowSymbols::from(cfg)),
                }) {
                    Ok(p) => live.push(p),
                    Err(_) => return Ok(()),
                },
                2 => {
                    // drop from the front and the back in turn
                    if live.len() > 3 {
                        if j % 2 == 0 {
                            live.swap_remove(0);
                        } else {
                            live.pop();
                        }
                    }
                }
                _ => {}
            }
            if inputs.is_empty() || live.is_empty() {
                continue;
            }
            let i = step % inputs.len();
            let who = &live[(step * 7) % live.len()];
            ctx.evals += 1;
            ctx.steps += 1;
            let r = c_out(ctx.real(|| who.parse_from_tokens(tokens::<Y>(inputs[i]).into_iter())));
            if r != fresh[i] {
                return Err(Viol::new("a parse result depends on the other parsers alive")
                    .with("history", format!("phase {} step {} with {} parsers alive", phase, j, live.len()))
                    .with("input", show(inputs[i]))
                    .with("got", format!("{:?}", r))
                    .with("expected", format!("{:?}", fresh[i])));
            }
        }
    }
    Ok(())
}

/// One parse of one input, for `mc fresh`.
pub fn fresh_parse(g: &Gram, w: &[Sym]) -> String {
    let r = std::panic::catch_unwind(|| {
        let c = build::<Y>(g);
        let p: Parser<Y, NoSolver> = RecursiveDescentParser::from_grammar(&c);
        p.parse_from_tokens(tokens::<Y>(w).into_iter())
    });
    format!("{:?}", c_out(r.map_err(|_| String::new())))
}

fn in_own_process(g: &Gram, w: &[Sym]) -> Option<String> {
    let o = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["fresh", &g.text(), &show(w)])
        .output()
        .ok()?;
    if !o.status.success() {
        return None; // it died; the check of this parse in this process decides
    }
    Some(String::from_utf8_lossy(&o.stdout).trim_end().to_string())
}

fn history_run(
    ctx: &mut Ctx,
    _g: &Gram,
    cfg: &Cfg<Y>,
    inputs: &[&Vec<Sym>],
    fresh: &[Result<CRes, ()>],
    seq: &[usize],
) -> Check {
    let k = inputs.len();
    let mk = || -> Parser<Y, NoSolver> { crate::leak::reusing(true, || RecursiveDescentParser::from_grammar(cfg)) };
    let mut p = match ctx.real(mk) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let q = match ctx.real(mk) {
        Ok(p) => p,
        Err(e) => return Err(Viol::new(format!("building a second parser panicked: {}", e))),
    };
    ctx.states += 1;
    for (step, op) in seq.iter().enumerate() {
        ctx.steps += 1;
        // long histories with and without memory being used again at once
        let again = step / 1000 % 2 == 0;
        if *op == 2 * k + 1 {
            let r = ctx.real(|| p.parse_from_tokens(tokens::<Y>(&[]).into_iter()));
            if r.is_ok() {
                return Err(Viol::new("an empty token sequence was not refused"));
            }
            continue;
        }
        if *op == 2 * k {
            p = match ctx.real(mk) {
                Ok(p) => p,
                Err(e) => return Err(Viol::new(format!("rebuilding a parser panicked: {}", e))),
            };
            continue;
        }
        let i = op % k;
        let who = if *op < k { &p } else { &q };
        ctx.evals += 1;
        let r = c_out(ctx.real(|| crate::leak::reusing(again, || who.parse_from_tokens(lazy::<Y>(inputs[i])))));
        if r != fresh[i] {
            let h: Vec<String> = seq[..=step]
                .iter()
                .rev()
                .take(20)
                .rev()
                .map(|o| {
                    if *o == 2 * k + 1 {
                        "P gets no tokens".into()
                    } else if *o == 2 * k {
                        "rebuild P".into()
                    } else {
                        format!(
                            "{} parses [{}]",
                            if *o < k { "P" } else { "Q" },
                            show(inputs[o % k])
                        )
                    }
                })
                .collect();
            return Err(Viol::new("a parse result depends on earlier parses")
                .with("history", h.join(", then "))
                .with("inputs", inputs.iter().map(|w| show(w)).collect::<Vec<_>>().join(" , "))
                .with("got", format!("{:?}", r))
                .with("expected", format!("{:?}", fresh[i])));
        }
    }
    Ok(())
}

fn solver_history(
    ctx: &mut Ctx,
    cfg: &Cfg<Y>,
    kind: usize,
    inputs: &[&Vec<Sym>],
    fresh: &[Result<CRes, ()>],
    fresh_s: &[Result<CRes, ()>],
    seq: &[usize],
) -> Check {
    let k = inputs.len();
    let made = ctx.real(|| {
        let p: Parser<Y, Steady> = RecursiveDescentParser::from_grammar_and_solver(cfg, Steady(kind));
        let q: Parser<Y, NoSolver> = RecursiveDescentParser::from_grammar(cfg);
        (p, q)
    });
    let (p, q) = match made {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    ctx.states += 1;
    for (step, op) in seq.iter().enumerate() {
        ctx.steps += 1;
        // long histories with and without memory being used again at once
        let again = step / 1000 % 2 == 0;
        ctx.evals += 1;
        let i = op % k;
        let toks = lazy::<Y>(inputs[i]);
        let (r, want) = if *op < k {
            (c_out(ctx.real(|| crate::leak::reusing(again, || p.parse_from_tokens(toks)))), &fresh_s[i])
        } else {
            (c_out(ctx.real(|| crate::leak::reusing(again, || q.parse_from_tokens(toks)))), &fresh[i])
        };
        if r != *want {
            let h: Vec<String> = seq[..=step]
                .iter()
                .rev()
                .take(20)
                .rev()
                .map(|o| format!("{} parses [{}]", if *o < k { "P" } else { "Q" }, show(inputs[o % k])))
                .collect();
            return Err(Viol::new(format!(
                "a parse result depends on earlier parses (P has a memoryless solver of kind {}, Q has none)",
                kind
            ))
            .with("history", h.join(", then "))
            .with("inputs", inputs.iter().map(|w| show(w)).collect::<Vec<_>>().join(" , "))
            .with("got", format!("{:?}", r))
            .with("expected", format!("{:?}", want)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

#[derive(PartialEq, Clone)]
struct Everything {
    first: Vec<Option<Bs>>,
    follow: Vec<Option<Bs>>,
    table: Vec<Option<Vec<Vec<Sym>>>>,
    results: Vec<Result<CRes, ()>>,
    /// with a solver that answers by a rule: outcome and requests
    solved: Vec<(Result<CRes, ()>, Vec<Call>)>,
}

fn everything<T: Sy>(
    ctx: &mut Ctx,
    cfg: &Cfg<T>,
    probes: &[Sym],
    inputs: &[Vec<Sym>],
) -> Result<Everything, String> {
    ctx.evals += 1;
    ctx.states += 1;
    ctx.steps += inputs.len() as u64;
    let (first, follow, table) = ctx.real(|| {
        let ff = FirstFollowSymbols::from(cfg);
        let tr = RecursiveDescentParserTransitions::from(cfg, &ff);
        let first = probes.iter().map(|s| ff.get_first_symbols(&T::mk(*s)).map(set_of)).collect();
        let follow = probes.iter().map(|s| ff.get_follow_symbols(&T::mk(*s)).map(set_of)).collect();
        let mut table = vec![];
        for x in probes {
            for t in probes {
                table.push(tr.get_productions(&T::mk(*x), &T::mk(*t)).map(|ps| {
                    ps.iter()
                        .map(|p| p.output.iter().map(|s| s.id()).collect())
                        .collect()
                }));
            }
        }
        (first, follow, table)
    })?;
    let mut results = vec![];
    if !inputs.is_empty() {
        let parser: Parser<T, NoSolver> = ctx.real(|| RecursiveDescentParser::from_grammar(cfg))?;
        for w in inputs {
            let r = ctx.real(|| parser.parse_from_tokens(tokens::<T>(w).into_iter()));
            results.push(r.map(|r| c_res(&r)).map_err(|_| ()));
        }
    }
    let mut solved = vec![];
    if !inputs.is_empty() {
        let h = Script::new(&[]);
        let parser: Parser<T, Script> = ctx.real(|| RecursiveDescentParser::from_grammar_and_solver(cfg, h.clone()))?;
        for (i, w) in inputs.iter().enumerate() {
            if w.len() > 64 || matches!(results[i], Ok(CRes::Ok(_))) {
                continue;
            }
            let (r, log) = scripted(ctx, &parser, &h, w, &[Some(PERSIST + 1 + i % 5)]);
            solved.push((r.map_err(|_| ()), log));
        }
    }
    Ok(Everything {
        first,
        follow,
        table,
        results,
        solved,
    })
}

fn diff(a: &Everything, b: &Everything, probes: &[Sym], inputs: &[Vec<Sym>]) -> String {
    let n = probes.len();
    for i in 0..n {
        if a.first[i] != b.first[i] {
            return format!("FIRST({}) differs", name(probes[i]));
        }
        if a.follow[i] != b.follow[i] {
            return format!("FOLLOW({}) differs", name(probes[i]));
        }
    }
    for i in 0..n * n {
        if a.table[i] != b.table[i] {
            return format!("predictions for ({}, {}) differ", name(probes[i / n]), name(probes[i % n]));
        }
    }
    for i in 0..inputs.len() {
        if a.results[i] != b.results[i] {
            return format!(
                "parsing [{}] differs: {:?} versus {:?}",
                show(&inputs[i]),
                a.results[i],
                b.results[i]
            );
        }
    }
    if let Some((x, y)) = a.solved.iter().zip(&b.solved).find(|(x, y)| x != y) {
        return format!(
            "parsing with a solver differs: {:?} after [{}] versus {:?} after [{}]",
            x.0,
            t_calls(&x.1),
            y.0,
            t_calls(&y.1)
        );
    }
    "?".into()
}

fn interleavings(g: &Gram, nts: &[Sym], limit: usize) -> Vec<Gram> {
    let lists: Vec<Vec<&(Sym, Vec<Sym>)>> = nts
        .iter()
        .map(|s| g.prods.iter().filter(|p| p.0 == *s).collect())
        .collect();
    let mut out = vec![];
    fn go(
        lists: &[Vec<&(Sym, Vec<Sym>)>],
        at: &mut Vec<usize>,
        cur: &mut Vec<(Sym, Vec<Sym>)>,
        out: &mut Vec<Vec<(Sym, Vec<Sym>)>>,
        limit: usize,
    ) {
        if out.len() >= limit {
            return;
        }
        let mut end = true;
        for i in 0..lists.len() {
            if at[i] < lists[i].len() {
                end = false;
                cur.push(lists[i][at[i]].clone());
                at[i] += 1;
                go(lists, at, cur, out, limit);
                at[i] -= 1;
                cur.pop();
            }
        }
        if end {
            out.push(cur.clone());
        }
    }
    go(&lists, &mut vec![0; lists.len()], &mut vec![], &mut out, limit);
    out.into_iter()
        .map(|prods| Gram {
            eps: g.eps,
            start: g.start,
            prods,
        })
        .collect()
}

fn orders_agree(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    let mut probes: Vec<Sym> = info.terms.list();
    probes.extend(&info.nts);
    if !probes.contains(&TZ) {
        probes.push(TZ);
    }
    let none: Vec<Vec<Sym>> = vec![];
    let inputs: &[Vec<Sym>] = if info.left_recursive { &none } else { job.inputs };
    let mut base: Option<Everything> = None;
    let n = info.nts.len();
    if n > 1 {
        ctx.nontrivial += 1;
    }
    let mut cmp = |ctx: &mut Ctx, e: Result<Everything, String>, label: String| -> Check {
        let e = match e {
            Ok(e) => e,
            Err(m) => return Err(Viol::new(format!("panicked: {}", m)).with("variant", label)),
        };
        match &base {
            None => base = Some(e),
            Some(b) => {
                ctx.count("variants_compared");
                if *b != e {
                    return Err(Viol::new(diff(b, &e, &probes, inputs)).with("variant", label));
                }
            }
        }
        Ok(())
    };
    let pr = probes.clone();
    each_order::<Y>(ctx, g, n, |ctx, cfg, l| {
        let e = everything(ctx, cfg, &pr, inputs);
        cmp(ctx, e, format!("visiting order {}", l))
    })?;
    let e = match ctx.real(|| build::<K>(g)) {
        Ok(c) => everything(ctx, &c, &pr, inputs),
        Err(m) => Err(m),
    };
    cmp(ctx, e, "colliding symbol hashes".into())?;
    let e = match ctx.real(|| build::<Z>(g)) {
        Ok(c) => everything(ctx, &c, &pr, inputs),
        Err(m) => Err(m),
    };
    cmp(ctx, e, "string symbols".into())?;
    for h in interleavings(g, &info.nts, if ctx.thorough { 60 } else { 20 }) {
        if h.prods == g.prods {
            continue;
        }
        let e = match ctx.real(|| build::<Y>(&h)) {
            Ok(c) => everything(ctx, &c, &pr, inputs),
            Err(m) => Err(m),
        };
        ctx.count("interleavings");
        cmp(ctx, e, format!("interleaving {}", h.text()))?;
    }
    ctx.sample(|| format!("{} : all orders, symbol types and interleavings agree on {} inputs", g.text(), inputs.len()));
    Ok(())
}

// ------------------------------------------------------------------ C17

fn relex_node(n: &CNode, a: &[Option<u32>]) -> CNode {
    CNode {
        sym: n.sym,
        // lexemes from 1000 on are those a solver made up
        lex: n.lex.and_then(|i| if i >= 1000 { Some(i) } else { a.get(i as usize).copied().flatten() }),
        kids: n.kids.iter().map(|k| relex_node(k, a)).collect(),
    }
}
fn relex_fail(f: &CFail, a: &[Option<u32>]) -> CFail {
    CFail {
        sym: f.sym,
        prods: f
            .prods
            .iter()
            .map(|p| CFailProd {
                parsed: p
                    .parsed
                    .iter()
                    .map(|x| match x {
                        CParsed::Ok(n) => CParsed::Ok(relex_node(n, a)),
                        CParsed::Fix(f) => CParsed::Fix(relex_fix(f, a)),
                    })
                    .collect(),
                failed: relex_fail(&p.failed, a),
                pending: p.pending.clone(),
            })
            .collect(),
    }
}

fn relex_fix(f: &CFix, a: &[Option<u32>]) -> CFix {
    CFix {
        sym: f.sym,
        parts: f
            .parts
            .iter()
            .map(|p| match p {
                CPart::Ok(n) => CPart::Ok(relex_node(n, a)),
                CPart::Fixed(f) => CPart::Fixed(relex_fix(f, a)),
                CPart::Gap(..) => p.clone(),
            })
            .collect(),
    }
}

/// The token leaves of a tree, left to right.
fn token_leaves(n: &CNode, g: &Gram, info: &Info, out: &mut Vec<(Sym, Option<u32>)>) -> Result<(), String> {
    if n.kids.is_empty() && n.sym != g.eps && info.nt(n.sym).is_none() {
        out.push((n.sym, n.lex));
    } else if n.lex.is_some() {
        return Err(format!("node {} carries a lexeme although no token was read for it", name(n.sym)));
    }
    n.kids.iter().try_for_each(|k| token_leaves(k, g, info, out))
}
/// The leaves read at `pos` carry the lexemes of the tokens there (lexeme = token index).
/// Leaves whose types are not those of the tokens there are judged by C05 and C11; here they
/// only have to carry the lexeme of some token of their type.
fn own_lexemes(leaves: &[(Sym, Option<u32>)], w: &[Sym], pos: usize) -> Result<(), String> {
    let in_place = pos + leaves.len() <= w.len() && leaves.iter().zip(&w[pos..]).all(|(l, t)| l.0 == *t);
    for (k, (s, lex)) in leaves.iter().enumerate() {
        let ok = match lex {
            None => return Err(format!("leaf {} lost its lexeme", name(*s))),
            Some(i) if in_place => *i as usize == pos + k,
            Some(i) => w.get(*i as usize) == Some(s),
        };
        if !ok {
            return Err(format!("leaf {} carries the lexeme of another token ({:?})", name(*s), lex));
        }
    }
    Ok(())
}
fn own_lexemes_fail(f: &CFail, g: &Gram, info: &Info, w: &[Sym], pos: usize) -> Result<(), String> {
    f.prods.iter().try_for_each(|p| {
        let mut leaves = vec![];
        for x in &p.parsed {
            if let CParsed::Ok(n) = x {
                token_leaves(n, g, info, &mut leaves)?;
            }
        }
        own_lexemes(&leaves, w, pos)?;
        own_lexemes_fail(&p.failed, g, info, w, pos + leaves.len())
    })
}

/// Leaves with a lexeme have the very type value of the token that had it.
fn own_types(n: &Node<D>) -> bool {
    n.token.lex.as_ref().map_or(true, |l| n.token.t_type.1 == l.0 + 1) && n.child_nodes.iter().all(own_types)
}
fn own_types_fail(f: &FailedSymbol<Lex, D>) -> bool {
    f.failed_productions.iter().all(|p| {
        p.parsed_symbols.iter().all(|x| match x {
            ProductionParsedSymbol::Ok(n) => own_types(n),
            _ => true,
        }) && own_types_fail(&p.failed_symbol)
    })
}

fn lexemes(ctx: &mut Ctx, g: &Gram, job: &Job) -> Check {
    let info = Info::new(g);
    if info.left_recursive {
        ctx.skipped += 1;
        return Ok(());
    }
    let cfg = match ctx.real(|| build::<Y>(g)) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let parser: Parser<Y, NoSolver> = match ctx.real(|| RecursiveDescentParser::from_grammar(&cfg)) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let tagged = match ctx.real(|| build::<D>(g)) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    let tagged: Parser<D, NoSolver> = match ctx.real(|| RecursiveDescentParser::from_grammar(&tagged)) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let mut solved: Vec<Parser<Y, Steady>> = vec![];
    for kind in 1..4 {
        if let Ok(p) = ctx.real(|| RecursiveDescentParser::from_grammar_and_solver(&cfg, Steady(kind))) {
            solved.push(p);
        }
    }
    for w in job.inputs {
        if w.is_empty() {
            continue;
        }
        ctx.note_input(w);
        // indices are used as lexemes below the ones a solver makes up
        let solvers = if w.len() < 400 { &solved[..] } else { &[] };
        let base_solved: Vec<_> = solvers
            .iter()
            .map(|p| c_out(ctx.real(|| p.parse_from_tokens(tokens::<Y>(w).into_iter()))))
            .collect();
        let base = c_out(ctx.real(|| parser.parse_from_tokens(tokens::<Y>(w).into_iter())));
        ctx.evals += 1;
        match &base {
            Ok(CRes::Ok(n)) => {
                let mut leaves = vec![];
                token_leaves(n, g, &info, &mut leaves).and_then(|_| own_lexemes(&leaves, w, 0))
            }
            Ok(CRes::Err(f)) => own_lexemes_fail(f, g, &info, w, 0),
            _ => Ok(()),
        }
        .map_err(|m| Viol::new(m).with("input", show(w)).with("got", format!("{:?}", base)))?;
        // symbols that carry more than their equality shows
        ctx.evals += 1;
        let got = ctx.real(|| {
            let toks: Vec<Token<Lex, D>> = w.iter().enumerate().map(|(i, s)| Token::new(Some(Lex(i as u32)), D(*s, i as u32 + 1))).collect();
            tagged.parse_from_tokens(toks.into_iter())
        });
        let own = match &got {
            Ok(ParseResult::Ok(t)) => own_types(&t.root),
            Ok(ParseResult::Err(f)) => own_types_fail(f),
            _ => true,
        };
        let got = c_out(got);
        if !own || got != base {
            return Err(Viol::new(if own { "the outcome depends on what the equality of symbols ignores" } else { "a leaf has another type value than the token it was read from" })
                .with("input", show(w))
                .with("got", format!("{:?}", got))
                .with("expected", format!("{:?}", base)));
        }
        // every assignment over {none, 7, 8} for short inputs, patterns for longer ones
        let vals = [None, Some(7u32), Some(8)];
        let mut assigns: Vec<Vec<Option<u32>>> = vec![];
        let full = if ctx.thorough { 4 } else { 3 };
        if w.len() <= full {
            let mut x = vec![0usize; w.len()];
            'e: loop {
                assigns.push(x.iter().map(|i| vals[*i]).collect());
                for i in 0..x.len() {
                    x[i] += 1;
                    if x[i] < 3 {
                        continue 'e;
                    }
                    x[i] = 0;
                }
                break;
            }
        } else {
            assigns.push(vec![None; w.len()]);
            assigns.push(vec![Some(7); w.len()]);
            for k in 0..2 {
                assigns.push((0..w.len()).map(|i| if i % 2 == k { None } else { Some(7) }).collect());
            }
            assigns.push((0..w.len()).map(|i| Some((w.len() - i) as u32)).collect());
            if w.len() <= 8 {
                for k in 0..w.len() {
                    assigns.push((0..w.len()).map(|i| if i == k { None } else { Some(i as u32) }).collect());
                    assigns.push((0..w.len()).map(|i| if i == k { Some(8) } else { None }).collect());
                }
            }
        }
        for a in assigns {
            ctx.evals += 1;
            ctx.states += 1;
            ctx.steps += 1;
            ctx.nontrivial += 1;
            let toks: Vec<Token<Lex, Y>> = w
                .iter()
                .zip(&a)
                .map(|(s, l)| Token::new(l.map(Lex), Y(*s)))
                .collect();
            let relexed = |base: &Result<CRes, ()>| match base {
                Ok(CRes::Ok(n)) => Ok(CRes::Ok(relex_node(n, &a))),
                Ok(CRes::Err(f)) => Ok(CRes::Err(relex_fail(f, &a))),
                Ok(CRes::Fix(f)) => Ok(CRes::Fix(relex_fix(f, &a))),
                Err(()) => Err(()),
            };
            let verdict = |got: Result<CRes, ()>, want: Result<CRes, ()>, with: &str| {
                if got == want {
                    return Ok(());
                }
                Err(Viol::new(format!("the outcome depends on lexemes{}", with))
                    .with("input", show(w))
                    .with("lexemes", format!("{:?}", a))
                    .with("got", format!("{:?}", got))
                    .with("expected", format!("{:?}", want)))
            };
            let got = c_out(ctx.real(|| parser.parse_from_tokens(toks.into_iter())));
            verdict(got, relexed(&base), "")?;
            if !matches!(base, Ok(CRes::Ok(_))) {
                for (p, base) in solvers.iter().zip(&base_solved) {
                    let toks: Vec<Token<Lex, Y>> = w
                        .iter()
                        .zip(&a)
                        .map(|(s, l)| Token::new(l.map(Lex), Y(*s)))
                        .collect();
                    ctx.evals += 1;
                    let got = c_out(ctx.real(|| p.parse_from_tokens(toks.into_iter())));
                    verdict(got, relexed(base), " (with a solver)")?;
                }
            }
        }
        ctx.sample(|| format!("{} | {} : all lexeme assignments agree", g.text(), show(w)));
    }
    Ok(())
}

/// Token equality and cloning over a small complete domain.
pub fn token_laws(ctx: &mut Ctx) -> Check {
    let lex = [None, Some(0u32), Some(1)];
    let ty = [EPS, END, TA, TB, NA];
    let mut toks = vec![];
    for l in lex {
        for t in ty {
            toks.push((l, t));
        }
    }
    for (l1, t1) in &toks {
        for (l2, t2) in &toks {
            ctx.evals += 1;
            ctx.states += 1;
            ctx.steps += 1;
            let r = ctx.real(|| {
                let a: Token<u32, Y> = Token::new(*l1, Y(*t1));
                let b: Token<u32, Y> = Token::new(*l2, Y(*t2));
                (a == b, a != b)
            });
            if r != Ok((t1 == t2, t1 != t2)) {
                return Err(Viol::new(format!(
                    "tokens ({:?},{}) and ({:?},{}): equality, inequality = {:?}",
                    l1,
                    name(*t1),
                    l2,
                    name(*t2),
                    r
                )));
            }
        }
        let c = ctx.real(|| {
            let a: Token<u32, Y> = Token::new(*l1, Y(*t1));
            let b = a.clone();
            (a.lex, a.t_type.0, b.lex, b.t_type.0)
        });
        if c != Ok((*l1, *t1, *l1, *t1)) {
            return Err(Viol::new(format!("cloning token ({:?},{}) gives {:?}", l1, name(*t1), c)));
        }
    }
    Ok(())
}
