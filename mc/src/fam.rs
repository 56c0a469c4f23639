//! The bounded spaces that are enumerated, per property and tier.  A family enumerates
//! grammars completely within its bounds and pairs each with a fixed set of inputs.
use crate::gram::*;
use crate::refm::Info;
use std::collections::BTreeSet;
use std::rc::Rc;

pub type Inputs = Rc<Vec<Vec<Sym>>>;
pub type Emit<'a> = &'a mut dyn FnMut(Gram, Option<Inputs>);

pub struct Fam {
    pub name: String,
    pub what: String,
    pub inputs: Inputs,
    pub deviations: usize,
    pub all_positions: bool,
    pub depth: usize,
    pub filter: fn(&Info) -> bool,
    pub gen: Box<dyn Fn(Emit)>,
}

// ------------------------------------------------------------------ building blocks

fn strings(alpha: &[Sym], min: usize, max: usize) -> Vec<Vec<Sym>> {
    let mut out = vec![];
    let mut layer: Vec<Vec<Sym>> = vec![vec![]];
    for l in 0..=max {
        if l >= min {
            out.extend(layer.iter().cloned());
        }
        if l < max {
            layer = layer
                .iter()
                .flat_map(|w| {
                    alpha.iter().map(move |s| {
                        let mut v = w.clone();
                        v.push(*s);
                        v
                    })
                })
                .collect();
        }
    }
    out
}

/// Right-hand sides: all strings of length 1..=max, and epsilon.
fn sides(alpha: &[Sym], max: usize) -> Vec<Vec<Sym>> {
    let mut v = vec![vec![EPS]];
    v.extend(strings(alpha, 1, max));
    v
}

/// Ordered lists of k distinct items, k in lo..=hi.
fn ordered(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, k - 1, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    for k in lo..=hi {
        go(n, k, &mut vec![], &mut out);
    }
    out
}

/// Lists of k items, repetitions allowed.
fn tuples(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for k in lo..=hi {
        let mut x = vec![0; k];
        'o: loop {
            out.push(x.clone());
            for i in 0..k {
                x[i] += 1;
                if x[i] < n {
                    continue 'o;
                }
                x[i] = 0;
            }
            break;
        }
    }
    out
}

/// Sets of k items.
fn subsets(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    ordered(n, lo, hi)
        .into_iter()
        .filter(|v| v.windows(2).all(|w| w[0] < w[1]))
        .collect()
}

fn gram(prods: Vec<(Sym, Vec<Sym>)>) -> Gram {
    Gram {
        eps: EPS,
        start: NS,
        prods,
    }
}

fn alts(h: Sym, rhs: &[Vec<Sym>], pick: &[usize]) -> Vec<(Sym, Vec<Sym>)> {
    pick.iter().map(|i| (h, rhs[*i].clone())).collect()
}

/// Smallest of the grammar and its image under exchanging a and b.
fn ab_minimal(g: &Gram) -> bool {
    for (l, r) in &g.prods {
        let _ = l;
        for s in r {
            if *s == TA {
                return true;
            }
            if *s == TB {
                return false;
            }
        }
    }
    true
}

fn rc(v: Vec<Vec<Sym>>) -> Inputs {
    let mut seen = BTreeSet::new();
    Rc::new(v.into_iter().filter(|w| seen.insert(w.clone())).collect())
}

fn marked(ws: Vec<Vec<Sym>>) -> Vec<Vec<Sym>> {
    ws.into_iter()
        .map(|mut w| {
            w.push(END);
            w
        })
        .collect()
}

fn std_inputs(len: usize) -> Inputs {
    let mut v = strings(&[TA, TB, END], 1, 3);
    v.extend(marked(strings(&[TA, TB], 0, len)));
    v.extend(strings(&[TA, TB], 4, len.max(4)));
    for t in ["z", "a z", "z a", "a z $", "a b z $", "a b $ a", "b a $ $"] {
        v.push(unshow(t));
    }
    rc(v)
}

fn marked_inputs(len: usize) -> Inputs {
    let mut v = marked(strings(&[TA, TB], 0, len));
    v.extend(strings(&[TA, TB, END], 1, 2));
    for t in ["a b a", "z $", "a z $", "a b $ b", "a $ a $"] {
        v.push(unshow(t));
    }
    rc(v)
}

fn short_inputs() -> Inputs {
    let mut v = strings(&[TA, TB, END], 1, 2);
    v.extend(marked(strings(&[TA, TB], 2, 3)));
    v.extend(strings(&[TA, TB], 3, 3));
    v.push(unshow("a z $"));
    rc(v)
}

fn odd_inputs() -> Inputs {
    // every kind of token type: end marker, foreign, epsilon, non-terminals
    let mut v = strings(&[TA, TB, END, TZ, EPS, NA, NS], 1, 3);
    v.extend(marked(strings(&[TA, TB], 3, 4)));
    v.extend(strings(&[TA, TB], 4, 4));
    rc(v)
}

fn any(_: &Info) -> bool {
    true
}
fn parseable(i: &Info) -> bool {
    !i.left_recursive
}
fn parseable_reach(i: &Info) -> bool {
    !i.left_recursive && i.reachable_all()
}
fn marked_reach(i: &Info) -> bool {
    !i.left_recursive && i.end_marked() && i.reachable_all()
}
fn ll1_marked(i: &Info) -> bool {
    !i.left_recursive && i.end_marked() && i.ll1()
}
fn marked_only(i: &Info) -> bool {
    !i.left_recursive && i.end_marked()
}

// ------------------------------------------------------------------ curated grammars

pub const CURATED: &[(&str, &str)] = &[
    ("expr-ll1", "epsilon _ start S : S -> E $ ; E -> T D ; D -> p T D ; D -> _ ; T -> F U ; U -> m F U ; U -> _ ; F -> l E r ; F -> i"),
    ("expr-prefix", "epsilon _ start S : S -> E $ ; E -> T p E ; E -> T ; T -> F m T ; T -> F ; F -> l E r ; F -> i"),
    ("dangling-else", "epsilon _ start S : S -> K $ ; K -> i K e K ; K -> i K ; K -> x"),
    ("statements", "epsilon _ start S : S -> L $ ; L -> K L ; L -> _ ; K -> i e n s ; K -> b L d ; K -> i l A r s ; A -> n B ; A -> _ ; B -> c n B ; B -> _"),
    ("values", "epsilon _ start S : S -> V $ ; V -> l M r ; V -> o P q ; V -> n ; M -> V N ; M -> _ ; N -> c V N ; N -> _ ; P -> k e V Q ; P -> _ ; Q -> c k e V Q ; Q -> _"),
    ("dyck", "epsilon _ start S : S -> D $ ; D -> l D r D ; D -> _"),
    ("anbn", "epsilon _ start S : S -> A $ ; A -> a A b ; A -> _"),
    ("palindrome", "epsilon _ start S : S -> P $ ; P -> a P a ; P -> b P b ; P -> a ; P -> b ; P -> _"),
    ("declarations", "epsilon _ start S : S -> D E $ ; D -> i c i ; D -> i c i e n ; D -> i ; E -> s D E ; E -> s ; E -> _"),
    ("options", "epsilon _ start S : S -> A B C D $ ; A -> a ; A -> _ ; B -> b ; B -> _ ; C -> c ; C -> a ; C -> _ ; D -> d ; D -> A ; D -> _"),
    ("separated", "epsilon _ start S : S -> L $ ; L -> i M ; M -> c i M ; M -> c ; M -> _"),
    ("repeat", "epsilon _ start S : S -> A A B A $ ; A -> a ; A -> a b ; A -> _ ; B -> b ; B -> A b"),
    ("retry", "epsilon _ start S : S -> A B C $ ; S -> A C $ ; A -> a ; A -> a b ; A -> a b c ; B -> b ; B -> b c ; B -> c ; C -> c ; C -> b c ; C -> a"),
    ("nested-retry", "epsilon _ start S : S -> X d $ ; S -> X Y $ ; X -> A B ; X -> A ; A -> a ; A -> a a ; B -> b ; B -> b b ; B -> a b ; Y -> b Y ; Y -> b ; Y -> d"),
    ("paths", "epsilon _ start S : S -> R P $ ; R -> r ; R -> _ ; P -> i Q ; P -> d Q ; Q -> r P ; Q -> r ; Q -> _"),
    ("no-marker", "epsilon _ start S : S -> A B ; S -> B ; A -> a ; A -> a A ; B -> b ; B -> b A ; B -> c S"),
    ("hidden-first", "epsilon _ start S : S -> A B C $ ; A -> _ ; A -> a ; B -> A C ; B -> b ; C -> A ; C -> c C ; C -> d"),
];

/// Words of the language up to a length, shortest first, at most `cap` per symbol.
fn language(g: &Gram, max: usize, cap: usize) -> Vec<Vec<Sym>> {
    let info = Info::new(g);
    let n = info.nts.len();
    let mut lang: Vec<BTreeSet<(usize, Vec<Sym>)>> = vec![BTreeSet::new(); n];
    for _ in 0..max + 4 {
        let mut next = lang.clone();
        for (l, r) in &g.prods {
            let mut cur: BTreeSet<(usize, Vec<Sym>)> = [(0, vec![])].into_iter().collect();
            for s in r {
                let mut nx = BTreeSet::new();
                for (_, w) in &cur {
                    let tails: Vec<Vec<Sym>> = match info.nt(*s) {
                        Some(j) => lang[j].iter().map(|x| x.1.clone()).collect(),
                        None if *s == g.eps => vec![vec![]],
                        None => vec![vec![*s]],
                    };
                    for t in tails {
                        if w.len() + t.len() <= max {
                            let mut v = w.clone();
                            v.extend(t);
                            nx.insert((v.len(), v));
                        }
                    }
                }
                cur = nx.into_iter().take(cap).collect();
            }
            next[info.nt(*l).unwrap()].extend(cur);
        }
        for s in next.iter_mut() {
            *s = std::mem::take(s).into_iter().take(cap).collect();
        }
        if next == lang {
            break;
        }
        lang = next;
    }
    match info.nt(g.start) {
        Some(s) => lang[s].iter().map(|x| x.1.clone()).collect(),
        None => vec![],
    }
}

/// Words of the language plus every single-token change, cut and extension of them, plus
/// all short strings.
fn curated_inputs(g: &Gram, max: usize, cap: usize, edits: usize) -> Inputs {
    let info = Info::new(g);
    let terms: Vec<Sym> = info.terms.list().into_iter().filter(|s| *s != g.eps).collect();
    let words = language(g, max, cap);
    let mut out: Vec<Vec<Sym>> = words.clone();
    let mut short = 1;
    while terms.len().pow(short as u32 + 1) <= cap * 2 {
        short += 1;
    }
    out.extend(strings(&terms, 1, short));
    for w in words.iter().take(edits) {
        for i in 0..=w.len() {
            if i > 0 {
                out.push(w[..i].to_vec());
            }
            if i < w.len() {
                let mut v = w.clone();
                v.remove(i);
                out.push(v);
                let mut v = w.clone();
                v.insert(i, w[i]);
                out.push(v);
            }
            for t in &terms {
                if i < w.len() {
                    let mut v = w.clone();
                    v[i] = *t;
                    out.push(v);
                } else {
                    let mut v = w.clone();
                    v.push(*t);
                    out.push(v);
                }
            }
        }
        let mut v = w.clone();
        if !v.is_empty() {
            v[w.len() / 2] = TZ;
            out.push(v);
        }
    }
    out.retain(|w| !w.is_empty());
    rc(out)
}

/// Every single edit of a grammar.
fn edits(g: &Gram, f: &mut dyn FnMut(Gram)) {
    let info = Info::new(g);
    let mut syms: Vec<Sym> = info.terms.list().into_iter().filter(|s| *s != g.eps).collect();
    syms.extend(&info.nts);
    let fix = |r: Vec<Sym>| if r.is_empty() { vec![g.eps] } else { r };
    for (i, (l, r)) in g.prods.iter().enumerate() {
        let with = |r: Vec<Sym>| {
            let mut h = g.clone();
            h.prods[i].1 = fix(r);
            h
        };
        // drop, repeat, move productions
        let mut h = g.clone();
        h.prods.remove(i);
        if !h.prods.is_empty() {
            f(h);
        }
        let mut h = g.clone();
        h.prods.insert(i, g.prods[i].clone());
        f(h);
        let mut h = g.clone();
        h.prods.push(g.prods[i].clone());
        f(h);
        let mut h = g.clone();
        let p = h.prods.remove(i);
        h.prods.insert(0, p);
        f(h);
        if i + 1 < g.prods.len() {
            let mut h = g.clone();
            h.prods.swap(i, i + 1);
            f(h);
        }
        let mut h = g.clone();
        h.prods.insert(i, (*l, vec![g.eps]));
        f(h);
        let word: Vec<Sym> = r.iter().copied().filter(|s| *s != g.eps).collect();
        for k in 0..=word.len() {
            for s in &syms {
                let mut v = word.clone();
                v.insert(k, *s);
                f(with(v));
                if k < word.len() {
                    let mut v = word.clone();
                    v[k] = *s;
                    f(with(v));
                }
            }
            if k < word.len() {
                let mut v = word.clone();
                v.remove(k);
                f(with(v));
                f(with(word[..k].to_vec()));
                // as a new, separate alternative, before and after
                let mut h = g.clone();
                h.prods.insert(i, (*l, fix(word[..k].to_vec())));
                f(h);
                let mut h = g.clone();
                h.prods.insert(i + 1, (*l, fix(word[..k].to_vec())));
                f(h);
            }
            if k + 1 < word.len() {
                let mut v = word.clone();
                v.swap(k, k + 1);
                f(with(v));
            }
        }
        for s in &syms {
            let mut h = g.clone();
            h.prods.insert(i + 1, (*l, vec![*s]));
            f(h);
        }
    }
}

fn curated_fam(kind: usize, max: usize, cap: usize, ed: usize, filter: fn(&Info) -> bool) -> Vec<Fam> {
    // kind 0: the grammars themselves, 1: single edits, 2: pairs of edits of the small ones
    CURATED
        .iter()
        .filter(|(n, t)| kind < 2 || (t.len() < 120 && *n != "retry"))
        .map(|(n, t)| {
            let base = Gram::parse(t);
            let inputs = curated_inputs(&base, max, cap, ed);
            Fam {
                name: format!("{}-{}", ["curated", "edited", "edited2"][kind], n),
                what: format!(
                    "{} grammar {}, {} inputs each",
                    ["the", "all single edits of", "all pairs of edits of"][kind],
                    n,
                    inputs.len()
                ),
                inputs,
                deviations: 1,
                all_positions: false,
                depth: 2,
                filter,
                gen: Box::new(move |f| match kind {
                    0 => f(base.clone(), None),
                    1 => edits(&base, &mut |g| f(g, None)),
                    _ => edits(&base, &mut |g| edits(&g, &mut |h| f(h, None))),
                }),
            }
        })
        .collect()
}

// ------------------------------------------------------------------ scale

fn t(i: usize) -> Sym {
    assert!(i < 400);
    30 + i as Sym
}
fn n(i: usize) -> Sym {
    assert!(i < 520);
    NS + i as Sym
}

fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if thorough { 70 } else { 36 }).collect();
    v.extend([64, 65, 100, 128, 129, 200, 257]);
    if thorough {
        v.extend([150, 255, 256, 257, 300]);
    }
    v.sort();
    v.dedup();
    v
}

/// Grammars for set computation that need many passes, long runs, many symbols.
fn scale_sets(thorough: bool, f: Emit) {
    let t = |i: usize| t(i % 390);
    for k in sizes(thorough) {
        let mut list: Vec<Vec<(Sym, Vec<Sym>)>> = vec![];
        if k <= 130 || k == 257 || k == 300 {
            // unit chain, nullable at the end
            let mut p: Vec<(Sym, Vec<Sym>)> = (0..k).map(|i| (n(i), vec![n(i + 1), t(i)])).collect();
            p.push((n(k), vec![t(k)]));
            p.push((n(k), vec![EPS]));
            list.push(p);
            // every link may vanish
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![];
            for i in 0..k {
                p.push((n(i), vec![n(i + 1)]));
                p.push((n(i), vec![t(i)]));
            }
            p.push((n(k), vec![EPS]));
            list.push(p);
            // last-symbol chain: the follow set travels down k links
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![(n(0), vec![n(1), END])];
            for i in 1..=k {
                p.push((n(i), vec![t(i), n(i + 1)]));
            }
            p.push((n(k + 1), vec![t(0)]));
            p.push((n(k + 1), vec![EPS]));
            list.push(p);
            // last but one, the tail vanishing
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![(n(0), vec![n(1), END])];
            for i in 1..=k {
                p.push((n(i), vec![n(i + 1), n(k + 2)]));
                p.push((n(i), vec![t(i)]));
            }
            p.push((n(k + 1), vec![t(0)]));
            p.push((n(k + 2), vec![EPS]));
            p.push((n(k + 2), vec![t(k + 1)]));
            list.push(p);
            // a ring
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![];
            for i in 0..k {
                p.push((n(i), vec![n((i + 1) % k), t(i)]));
                p.push((n(i), vec![t(k + i), n((i + 1) % k)]));
            }
            p.push((n(0), vec![EPS]));
            list.push(p);
            // k optional symbols in a row
            let mut p: Vec<(Sym, Vec<Sym>)> =
                vec![(n(0), (1..=k).map(|i| n(i)).chain([END]).collect())];
            for i in 1..=k {
                p.push((n(i), vec![t(i)]));
                p.push((n(i), vec![EPS]));
            }
            list.push(p.clone());
            // the same without the marker, all vanishing
            p[0].1.pop();
            list.push(p.clone());
            // one of them, in the middle, does not vanish
            let m = 1 + k / 2;
            p.retain(|(l, r)| !(*l == n(m.min(k)) && *r == vec![EPS]));
            list.push(p);
            // 2^k ways down a chain: several references to the next link, to the next two
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![];
            for i in 0..k {
                p.push((n(i), vec![n(i + 1), t(i)]));
                p.push((n(i), vec![n(i + 1), n(i + 1), n(i + 1)]));
                p.push((n(i), vec![n((i + 2).min(k)), n(i + 1)]));
            }
            p.push((n(k), vec![t(k)]));
            if k <= 70 {
                list.push(p.clone());
                p.push((n(k), vec![EPS]));
                list.push(p);
            }
            // k alternatives, each with its own sub-symbol
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![];
            for i in 1..=k {
                p.push((n(0), vec![n(i), t(i)]));
            }
            for i in 1..=k {
                p.push((n(i), if i % 3 == 0 { vec![EPS] } else { vec![t(k + i)] }));
            }
            list.push(p);
        }
        // k terminal alternatives
        let mut p: Vec<(Sym, Vec<Sym>)> = vec![(n(0), vec![n(1), n(2), END])];
        for i in 0..k {
            p.push((n(1), vec![t(i)]));
            p.push((n(2), vec![t(k - 1 - i), n(1)]));
        }
        p.push((n(1), vec![EPS]));
        list.push(p);
        // one symbol repeated k times
        list.push(vec![
            (n(0), vec![n(1); k]),
            (n(0), vec![t(2)]),
            (n(1), vec![t(0)]),
            (n(1), vec![EPS]),
        ]);
        let mut r = vec![n(1); k];
        r.push(t(1));
        list.push(vec![(n(0), r), (n(1), vec![t(0)]), (n(1), vec![EPS])]);
        // k terminals then a symbol then k more
        let mut r: Vec<Sym> = (0..k).map(|i| t(i % 7)).collect();
        r.push(n(1));
        r.extend((0..k).map(|i| t(7 + i % 7)));
        r.push(n(1));
        list.push(vec![(n(0), r), (n(1), vec![t(20)]), (n(1), vec![EPS])]);
        for p in list {
            let mut q = p.clone();
            q.reverse();
            f(gram(p), None);
            f(gram(q), None);
        }
    }
}

/// Long inputs, wide alternatives, deep nesting.
fn scale_parse(thorough: bool, marked: bool, f: Emit) {
    let put = |f: &mut dyn FnMut(Gram, Option<Inputs>), p: Vec<(Sym, Vec<Sym>)>, ws: Vec<Vec<Sym>>| {
        f(gram(p), Some(rc(ws)));
    };
    let mut flat: Vec<usize> = (1..=40).collect();
    flat.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537]);
    for &k in &flat {
        let w: Vec<Sym> = (0..k).map(|i| t(i % 5)).chain([END]).collect();
        let mut v = vec![w.clone(), w[..k].to_vec()];
        if k <= 2000 {
            let mut x = w.clone();
            x[k / 2] = t(9);
            v.push(x);
            let mut x = w.clone();
            x.push(END);
            v.push(x);
        }
        put(f, vec![(NS, w)], v);
    }
    let mut lens: Vec<usize> = (0..=40).collect();
    lens.extend([64, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
    if thorough {
        lens.extend([511, 512, 513, 1000, 1500, 2000]);
    }
    let word = |k: usize| -> Vec<Sym> { vec![TA; k] };
    let end = |mut w: Vec<Sym>| {
        w.push(END);
        w
    };
    for &k in &lens {
        let ok = end(word(k));
        let mut bad = word(k);
        bad.push(TB);
        bad.push(END);
        let mut late = word(k);
        late.push(TB);
        let all = vec![ok.clone(), bad, word(k.max(1)), late, end(ok.clone())];
        // list by right recursion, LL(1)
        put(f, vec![(NS, vec![NA, END]), (NA, vec![TA, NA]), (NA, vec![EPS])], all.clone());
        // reversed order of alternatives
        put(f, vec![(NS, vec![NA, END]), (NA, vec![EPS]), (NA, vec![TA, NA])], all.clone());
        // list with separators: item tail
        let mut sep: Vec<Sym> = vec![TA];
        for _ in 0..k {
            sep.extend([TC, TA]);
        }
        let mut cut = sep.clone();
        cut.push(TC);
        put(
            f,
            vec![(NS, vec![NA, END]), (NA, vec![TA, NB]), (NB, vec![TC, TA, NB]), (NB, vec![EPS])],
            vec![end(sep.clone()), sep, end(cut)],
        );
        // nesting
        let mut nest: Vec<Sym> = vec![TA; k];
        nest.extend(vec![TB; k]);
        let mut un = nest.clone();
        un.push(TB);
        put(
            f,
            vec![(NS, vec![NA, END]), (NA, vec![TA, NA, TB]), (NA, vec![EPS])],
            vec![end(nest.clone()), end(un), nest],
        );
        if k <= 300 {
            // all of a production's siblings may vanish
            let mut p: Vec<(Sym, Vec<Sym>)> =
                vec![(NS, (1..=k).map(n).chain([END]).collect())];
            for i in 1..=k {
                p.push((n(i), vec![t(i)]));
                p.push((n(i), vec![EPS]));
            }
            let full: Vec<Sym> = (1..=k).map(t).collect();
            let odd: Vec<Sym> = (1..=k).filter(|i| i % 2 == 1).map(t).collect();
            let even: Vec<Sym> = (1..=k).filter(|i| i % 2 == 0).map(t).collect();
            let mut rev = full.clone();
            rev.reverse();
            put(f, p, vec![end(full), end(odd), end(even), end(rev), vec![END]]);
            // chain of unit productions of depth k
            let mut p: Vec<(Sym, Vec<Sym>)> = (0..=k).map(|i| (n(i), vec![n(i + 1)])).collect();
            p[0].1.push(END);
            p.push((n(k + 1), vec![TA, TB]));
            put(f, p, vec![unshow("a b $"), unshow("a $"), unshow("a"), unshow("b"), unshow("a b"), unshow("a b b")]);
            // the k-th alternative of k is the one
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![(NS, vec![NA, END])];
            for i in 0..k {
                let mut r = vec![TA];
                r.push(t(i));
                p.push((NA, r));
            }
            p.push((NA, vec![TA]));
            let mut ws: Vec<Vec<Sym>> = (0..k.min(12)).map(|i| vec![TA, t(i), END]).collect();
            if k > 0 {
                ws.push(vec![TA, t(k - 1), END]);
                ws.push(vec![TA, t(k / 2), END]);
            }
            ws.push(vec![TA, END]);
            ws.push(vec![TA, TB, END]);
            ws.push(vec![TA]);
            put(f, p, ws);
            // the sibling to retry lies k symbols before the failure: terminals, symbols, symbols
            // that vanish, and with further siblings before it
            for kind in 0..4 {
                let mid = match kind {
                    0 => TB,
                    1 => NB,
                    2 => NC,
                    _ => ND,
                };
                let mut r = vec![NA];
                r.extend(vec![mid; k]);
                r.extend([TC, END]);
                if kind == 3 {
                    r.insert(0, NC);
                }
                let p = vec![
                    (NS, r),
                    (NA, vec![TA]),
                    (NA, vec![TA, TB]),
                    (NA, vec![TA, TB, TB]),
                    (NB, vec![TB]),
                    (NC, vec![EPS]),
                    (NC, vec![TZ]),
                    (ND, vec![NB]),
                ];
                let used = if kind == 2 { 0 } else { k };
                let mut ws = vec![];
                for extra in 0..4 {
                    let mut w = vec![TA];
                    w.extend(vec![TB; used + extra]);
                    ws.push(w.clone());
                    w.extend([TC, END]);
                    ws.push(w);
                }
                put(f, p, ws);
            }
            // k leftover alternatives of a sibling before the one that lets it go on
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![(NS, vec![NA, NB, END])];
            for i in 0..k {
                p.push((NA, vec![TA; k - i]));
            }
            p.push((NA, vec![EPS]));
            p.push((NB, vec![TA, TB]));
            for m in [0, 1, 2, k / 2, k.saturating_sub(1), k, k + 1, k + 2] {
                let mut w = vec![TA; m];
                w.extend([TA, TB, END]);
                put(f, p.clone(), vec![w.clone(), w[..w.len() - 2].to_vec()]);
            }
        }
        if k <= 9 {
            // k siblings, only one combination of their alternatives fits
            let mut r: Vec<Sym> = vec![NA; k];
            r.extend([TB, END]);
            let p = vec![(NS, r), (NA, vec![TA]), (NA, vec![TA, TA]), (NA, vec![EPS])];
            let ws: Vec<Vec<Sym>> = (0..=2 * k + 1)
                .map(|m| {
                    let mut w = vec![TA; m];
                    w.extend([TB, END]);
                    w
                })
                .collect();
            if k <= if thorough { 8 } else { 6 } {
                put(f, p, ws);
            } else {
                // thousands of retries in one parse
                put(f, p, vec![ws[0].clone(), ws[k / 2].clone(), ws[2 * k].clone()]);
            }
        }
    }
    for &k in &lens {
        // a list of k items each of which needs a retry
        let mut w: Vec<Sym> = vec![];
        for _ in 0..k {
            w.extend([TA, TB, TC]);
        }
        let p = vec![(NS, vec![NA, END]), (NA, vec![NB, NA]), (NA, vec![EPS]), (NB, vec![NC, TC]), (NC, vec![TA, TB, TB]), (NC, vec![TA]), (NC, vec![TA, TB])];
        let cut = w[..w.len().saturating_sub(1)].to_vec();
        put(f, p, vec![end(w.clone()), cut, end(w.iter().chain(&[TA, TC]).copied().collect())]);
        let mut r = vec![NB; k];
        r.push(END);
        let p = vec![(NS, r), (NB, vec![NC, TC]), (NC, vec![TA]), (NC, vec![TA, TB])];
        put(f, p, vec![end(w.clone()), w]);
    }
    // beyond any 16-bit counter
    for &k in if thorough { &[1000usize, 2000, 4096, 32768, 65535, 65536, 65537, 70000][..] } else { &[1025, 4096, 66000][..] } {
        // siblings, the first of which must be retried when the last one fails
        for (mid, used) in [(TB, k), (NB, k), (NC, 0)] {
            if mid == NC && k > 2000 {
                continue; // the sets of a long row of vanishing symbols take quadratic time
            }
            let mut r = vec![NA];
            r.extend(vec![mid; k]);
            r.extend([TC, END]);
            let p = vec![(NS, r), (NA, vec![TA]), (NA, vec![TA, TB]), (NB, vec![TB]), (NC, vec![EPS]), (NC, vec![TZ])];
            let mut ws = vec![];
            for extra in 0..3 {
                let mut w = vec![TA];
                w.extend(vec![TB; used + extra]);
                w.extend([TC, END]);
                ws.push(w);
            }
            put(f, p, ws);
        }
        // alternatives with the same first token
        let bits = |i: usize| -> Vec<Sym> {
            let mut r = vec![TA];
            r.extend((0..17).map(|b| if i >> b & 1 == 1 { TB } else { TC }));
            r
        };
        let mut p = vec![(NS, vec![NA, END])];
        p.extend((0..k).map(|i| (NA, bits(i))));
        let ws = [0, 1, 255, 256, k / 2, k - 2, k - 1, k].iter().map(|i| end(bits(*i))).collect();
        put(f, p, ws);
        // leftover alternatives of an already parsed sibling
        let mut p = vec![(NS, vec![NA, NB, END]), (NB, vec![TC])];
        p.extend((0..k).map(|_| (NA, vec![TA])));
        p.push((NA, vec![TA, TB]));
        put(f, p, vec![unshow("a c $"), unshow("a b c $"), unshow("a b b $"), unshow("a b c")]);
    }
    for &k in if thorough { &[1025usize, 2000, 3000, 5000, 10001, 16385, 32769, 65535, 65536, 65537, 70000][..] } else { &[1025, 2000, 4097, 10001, 66000][..] } {
        // deep recursion: nesting, lists, lists with separators
        let mut nest = vec![TA; k];
        nest.extend(vec![TB; k]);
        let mut un = nest.clone();
        un.push(TB);
        put(f, vec![(NS, vec![NA, END]), (NA, vec![TA, NA, TB]), (NA, vec![EPS])], vec![end(nest.clone()), end(un), nest]);
        put(f, vec![(NS, vec![NA, END]), (NA, vec![TA, NA]), (NA, vec![EPS])], vec![end(word(k)), word(k), end([word(k), vec![TB]].concat())]);
        let mut sep = vec![TA];
        for _ in 0..k / 2 {
            sep.extend([TC, TA]);
        }
        let mut cut = sep.clone();
        cut.push(TC);
        put(f, vec![(NS, vec![NA, END]), (NA, vec![TA, NB]), (NB, vec![TC, NA]), (NB, vec![EPS])], vec![end(sep), end(cut)]);
    }
    if !marked {
        // no end marker: prefixes are accepted
        for &k in &lens {
            let mut w = word(k + 1);
            w.push(TB);
            put(f, vec![(NS, vec![TA, NS]), (NS, vec![TA]), (NS, vec![TB])], vec![word(k + 1), w.clone()]);
            put(f, vec![(NS, vec![TA])], vec![word(k + 1), w]);
        }
    }
}

/// Nested single-path and multi-candidate errors for the solver checks.
/// Many requests and many fixes in one parse.
fn scale_many(thorough: bool, f: Emit) {
    let mut lens: Vec<usize> = (1..=12).collect();
    lens.extend([20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 520, 1030, 2050]);
    if thorough {
        lens.extend([400, 500, 511, 512, 513, 700, 1500, 3000, 4100]);
    }
    for &k in &lens {
        let rep = |part: &[Sym], tail: &[Sym]| -> Vec<Sym> {
            let mut w = vec![];
            for _ in 0..k {
                w.extend(part);
            }
            w.extend(tail);
            w
        };
        // a list of k items all of which fail
        let p = vec![(NS, vec![NA, END]), (NA, vec![NB, NA]), (NA, vec![EPS]), (NB, vec![TA, TB])];
        f(gram(p), Some(rc(vec![rep(&[TA, TC], &[END]), rep(&[TA], &[END])])));
        // k items in one production
        let mut r = vec![NB; k];
        r.push(END);
        let p = vec![(NS, r), (NB, vec![TA, TB])];
        f(gram(p), Some(rc(vec![rep(&[TA, TC], &[END]), rep(&[TA], &[END])])));
        // k nested symbols
        let p = vec![(NS, vec![NA, END]), (NA, vec![TA, NA, TB]), (NA, vec![TC])];
        f(gram(p), Some(rc(vec![rep(&[TA], &[TB, END]), rep(&[TA], &[TC, END])])));
    }
    for k in if thorough { vec![64usize, 100, 128, 129, 200, 255, 256, 257, 300, 513] } else { vec![64, 100, 129, 257] } {
        let mut p: Vec<(Sym, Vec<Sym>)> = (0..k).map(|i| (n(i), vec![n(i + 1)])).collect();
        p.push((n(k), vec![TA, TC]));
        f(gram(p), Some(rc(vec![unshow("a b")])));
    }
    // positions, siblings and failures beyond 16 bits
    for k in if thorough { vec![1000usize, 65535, 65536, 65537, 66000] } else { vec![66000] } {
        let mut r = vec![TA; k];
        r.extend([NB, NC, END]);
        let p = vec![(NS, r), (NB, vec![TB]), (NC, vec![TC])];
        let mut w = vec![TA; k];
        let ended = w.clone();
        w.extend([TZ, TC, END]);
        f(gram(p), Some(rc(vec![w, ended])));
        let mut r = vec![NB; k];
        r.push(END);
        let mut w = vec![TB; k];
        w[0] = TZ;
        w.push(END);
        let mut w2 = w.clone();
        w2[0] = TB;
        w2[k - 1] = TZ;
        f(gram(vec![(NS, r), (NB, vec![TB])]), Some(rc(vec![w, w2])));
        let mut p = vec![(NS, vec![NA, NB, END]), (NB, vec![TB])];
        p.extend((0..k).map(|_| (NA, vec![TA, TC])));
        f(gram(p), Some(rc(vec![unshow("a b $")])));
    }
}

fn scale_solver(thorough: bool, f: Emit) {
    for k in 1..=if thorough { 40 } else { 24 } {
        // chain of single candidates, failing at the bottom
        let mut p: Vec<(Sym, Vec<Sym>)> = (0..k).map(|i| (n(i), vec![TA, n(i + 1), TB])).collect();
        p.push((n(k), vec![TC]));
        let mut w = vec![TA; k];
        w.push(TB);
        f(gram(p.clone()), Some(rc(vec![w])));
        // fails after the bottom matched
        let mut w = vec![TA; k];
        w.push(TC);
        w.extend(vec![TB; k - 1]);
        let mut w2 = w.clone();
        w2.insert(k + 1, TC);
        f(gram(p.clone()), Some(rc(vec![w, w2])));
        // j alternatives at depth k
        for j in [2usize, 3] {
            let mut q = p.clone();
            q.pop();
            for x in 0..j {
                q.push((n(k), vec![TC, t(x)]));
            }
            let mut w = vec![TA; k];
            w.extend([TC, TB]);
            f(gram(q), Some(rc(vec![w])));
        }
        // many alternatives
        let mut q: Vec<(Sym, Vec<Sym>)> = vec![(NS, vec![NA, NB, END]), (NB, vec![TB])];
        for i in 0..k {
            q.push((NA, vec![TA, t(i)]));
        }
        f(
            gram(q),
            Some(rc(vec![vec![TA, TB, END], vec![TA], vec![TB, END], vec![TA, t(0), TC]])),
        );
        // long productions with the failure anywhere
        let mut q: Vec<(Sym, Vec<Sym>)> = vec![(NS, (1..=k).map(n).chain([END]).collect())];
        for i in 1..=k {
            q.push((n(i), vec![TA, t(i)]));
        }
        for bad in [1, k / 2 + 1, k] {
            let mut w = vec![];
            for i in 1..=k {
                w.extend([TA, if i == bad { TB } else { t(i) }]);
            }
            w.push(END);
            f(gram(q.clone()), Some(rc(vec![w.clone(), w[..bad * 2 - 1].to_vec(), w[..bad * 2 - 2].to_vec()])));
        }
    }
}

// ------------------------------------------------------------------ family lists

fn fam(name: &str, what: &str, inputs: Inputs, filter: fn(&Info) -> bool, gen: impl Fn(Emit) + 'static) -> Fam {
    Fam {
        name: name.into(),
        what: what.into(),
        inputs,
        deviations: 1,
        all_positions: false,
        depth: 2,
        filter,
        gen: Box::new(gen),
    }
}

/// Two non-terminals S and A over each other and a, b: `ordered_alts` or sets of 1..=k
/// alternatives of length <= len.
fn two(len: usize, k: usize, ord: bool, dup: bool) -> impl Fn(Emit) {
    move |f: Emit| {
        let r = sides(&[NS, NA, TA, TB], len);
        let picks = if dup {
            tuples(r.len(), 1, k)
        } else if ord {
            ordered(r.len(), 1, k)
        } else {
            subsets(r.len(), 1, k)
        };
        for x in &picks {
            for y in &picks {
                let mut p = alts(NS, &r, x);
                p.extend(alts(NA, &r, y));
                let g = gram(p);
                if ab_minimal(&g) {
                    f(g, None)
                }
            }
        }
    }
}

fn none() -> Inputs {
    rc(vec![])
}

fn sets_families(prop: &str, thorough: bool) -> Vec<Fam> {
    let mut v = vec![];
    v.push(fam(
        "two-symbols",
        "S and A, 1-2 alternatives each, sides of length <= 2 over {S,A,a,b} or epsilon",
        none(),
        any,
        two(2, 2, false, false),
    ));
    v.push(fam(
        "three-symbols",
        "S, A and B, one alternative each, sides of length <= 2 over {S,A,B,a,b} or epsilon",
        none(),
        any,
        |f| {
            let r = sides(&[NS, NA, NB, TA, TB], 2);
            for x in &r {
                for y in &r {
                    for z in &r {
                        let g = gram(vec![(NS, x.clone()), (NA, y.clone()), (NB, z.clone())]);
                        if ab_minimal(&g) {
                            f(g, None)
                        }
                    }
                }
            }
        },
    ));
    let l = if thorough { 6 } else { 5 };
    v.push(fam(
        "long-sides",
        "S -> w for every w of length <= 5 (thorough 6) over {A,B,S,a,c}, A and B from small definitions that may vanish",
        none(),
        any,
        move |f| {
            let da: Vec<Vec<Vec<Sym>>> = ["a", "a / _", "_"].iter().map(|t| t.split('/').map(unshow).collect()).collect();
            let db: Vec<Vec<Vec<Sym>>> = ["b / _", "A", "A A / b", "A b"]
                .iter()
                .map(|t| t.split('/').map(unshow).collect())
                .collect();
            for w in strings(&[NA, NB, NS, TA, TC], 1, l) {
                for a in &da {
                    for b in &db {
                        let mut p = vec![(NS, w.clone())];
                        p.extend(a.iter().map(|r| (NA, r.clone())));
                        p.extend(b.iter().map(|r| (NB, r.clone())));
                        f(gram(p), None);
                    }
                }
            }
        },
    ));
    if prop != "C04" {
        v.push(fam("giant", "chains, rings, fans of up to 2 100 (thorough 3 000) symbols, rows of 520 (1 100)", none(), any, move |f| {
            crate::giant::grammars(thorough, &mut |g| f(g, None))
        }));
    }
    v.push(links(if prop == "C04" { &[3] } else { &[3, 6, 17] }, crate::prep::patterns(thorough)));
    let l = if thorough { 5 } else { 4 };
    v.push(fam(
        "four-symbols",
        "S -> w | S2, w of length <= 4 (thorough 5) over {A,B,C,d}, A, B, C each present, optional or vanishing",
        none(),
        any,
        move |f| {
            for w in strings(&[NA, NB, NC, TC + 1], 1, l) {
                for m in tuples(3, 3, 3) {
                    let mut p = vec![(NS, w.clone())];
                    for (i, nt) in [NA, NB, NC].iter().enumerate() {
                        let tt = TA + i as Sym;
                        match m[i] {
                            0 => p.push((*nt, vec![tt])),
                            1 => {
                                p.push((*nt, vec![EPS]));
                                p.push((*nt, vec![tt]));
                            }
                            _ => {
                                p.push((*nt, vec![tt, *nt]));
                                p.push((*nt, vec![EPS]));
                            }
                        }
                    }
                    f(gram(p), None);
                }
            }
        },
    ));
    v.push(fam(
        "three-links",
        "S -> x A y, A -> x B y, B -> x S y | leaf, with x, y each absent, terminal or optional",
        none(),
        any,
        |f| {
            let side = |k: usize, i: usize| -> Vec<Sym> {
                match k {
                    0 => vec![],
                    1 => vec![TA + i as Sym],
                    _ => vec![NC],
                }
            };
            for m in tuples(3, 6, 6) {
                for leaf in 0..4 {
                    let mk = |mid: Sym, i: usize| -> Vec<Sym> {
                        let mut r = side(m[2 * i], i);
                        r.push(mid);
                        r.extend(side(m[2 * i + 1], i + 3));
                        r
                    };
                    let mut p = vec![(NS, mk(NA, 0)), (NA, mk(NB, 1))];
                    if leaf & 1 == 0 {
                        p.push((NB, mk(NS, 2)));
                    } else {
                        p.push((NB, mk(TZ, 2)));
                    }
                    if leaf & 2 == 0 {
                        p.push((NB, vec![EPS]));
                    }
                    p.push((NC, vec![TA + 10]));
                    p.push((NC, vec![EPS]));
                    f(gram(p), None);
                }
            }
        },
    ));
    v.extend(curated_fam(0, 0, 0, 0, any));
    v.extend(curated_fam(1, 0, 0, 0, any));
    v.push(fam("scale-sets", "chains, rings, runs and fans of sizes 1 to 36 and up to 200 (thorough 300), both declaration orders", none(), any, move |f| {
        scale_sets(thorough, f)
    }));
    v.push(fam("sym-types", "S and A, one alternative each, sides of length <= 2, three symbol types", none(), any, two(2, 1, false, false)));
    v.push(fam("degenerate", "undefined, terminal and epsilon initial symbols, unused epsilon symbols", none(), any, degenerate));
    if thorough {
        v.push(fam(
            "two-symbols-3",
            "S and A, 1-3 alternatives each, sides of length <= 2 over {S,A,a,b} or epsilon",
            none(),
            any,
            two(2, 3, false, false),
        ));
        v.push(fam(
            "two-symbols-long",
            "S and A, one alternative of length <= 4 and up to one more of length <= 2",
            none(),
            any,
            |f| {
                let r = sides(&[NS, NA, TA, TB], 4);
                let q = sides(&[NS, NA, TA], 2);
                for x in &r {
                    for y in &q {
                        for z in &q {
                            let g = gram(vec![(NS, x.clone()), (NA, y.clone()), (NA, z.clone())]);
                            if ab_minimal(&g) {
                                f(g, None)
                            }
                        }
                    }
                }
            },
        ));
        v.push(fam(
            "three-symbols-4",
            "S, A and B, 4 productions in all, sides of length <= 2 over {S,A,B,a,b} or epsilon",
            none(),
            any,
            |f| {
                let r = sides(&[NS, NA, NB, TA, TB], 2);
                for e in subsets(r.len(), 2, 2) {
                    for y in &r {
                        for z in &r {
                            for k in 0..3 {
                                let mut p = vec![];
                                let o = [y, z];
                                let mut oi = 0;
                                for (i, h) in [NS, NA, NB].iter().enumerate() {
                                    if i == k {
                                        p.extend(alts(*h, &r, &e));
                                    } else {
                                        p.push((*h, o[oi].clone()));
                                        oi += 1;
                                    }
                                }
                                let g = gram(p);
                                if ab_minimal(&g) {
                                    f(g, None)
                                }
                            }
                        }
                    }
                }
            },
        ));
        v.extend(curated_fam(2, 0, 0, 0, any));
    }
    v
}

fn degenerate(f: Emit) {
    let r = sides(&[NS, NA, TA], 2);
    for x in &r {
        for y in &r {
            for start in [NB, TA, EPS, TZ, NA, END] {
                f(
                    Gram {
                        eps: EPS,
                        start,
                        prods: vec![(NS, x.clone()), (NA, y.clone())],
                    },
                    None,
                );
            }
            // another epsilon symbol: the usual one is then an ordinary terminal
            for eps in [TZ, TB, NB] {
                f(
                    Gram {
                        eps,
                        start: NS,
                        prods: vec![(NS, x.clone()), (NA, y.clone())],
                    },
                    None,
                );
                f(
                    Gram {
                        eps,
                        start: NS,
                        prods: vec![(NS, x.clone()), (NA, vec![eps]), (NA, y.clone())],
                    },
                    None,
                );
            }
        }
    }
    for start in [NS, NA, EPS, TA] {
        f(
            Gram {
                eps: EPS,
                start,
                prods: vec![],
            },
            None,
        );
    }
}

/// S -> w $ with A and B over {A,B,a,b}; `na`, `nb` alternatives.
fn marked_small(wl: usize, sizes: Vec<(usize, usize)>, len: usize, dup: bool) -> impl Fn(Emit) {
    move |f: Emit| {
        let r = sides(&[NA, NB, TA, TB], len);
        let tops = strings(&[NA, NB, TA, TB], 1, wl);
        for (na, nb) in &sizes {
            let list = |k: usize| {
                if dup {
                    tuples(r.len(), k, k)
                } else {
                    ordered(r.len(), k, k)
                }
            };
            let xs = list(*na);
            let ys = list(*nb);
            for w in &tops {
                let uses_a = w.contains(&NA);
                let uses_b = w.contains(&NB);
                let mut top = w.clone();
                top.push(END);
                for x in &xs {
                    let xb = x.iter().any(|i| r[*i].contains(&NB));
                    if !uses_a && !uses_b || uses_a && !uses_b && !xb && *nb > 0 {
                        continue; // something is unreachable
                    }
                    // immediate left recursion
                    if x.iter().any(|i| r[*i][0] == NA) {
                        continue;
                    }
                    for y in &ys {
                        if y.iter().any(|i| r[*i][0] == NB) {
                            continue;
                        }
                        let mut p = vec![(NS, top.clone())];
                        p.extend(alts(NA, &r, x));
                        p.extend(alts(NB, &r, y));
                        let g = gram(p);
                        if ab_minimal(&g) {
                            f(g, None)
                        }
                    }
                }
            }
        }
    }
}

/// Skeletons with two or three leaf symbols whose ordered alternatives are enumerated.
fn skeletons(list: &'static [&'static str], leaf_texts: &'static [&'static str], k: usize) -> impl Fn(Emit) {
    move |f: Emit| {
        let leaves: Vec<Vec<Sym>> = leaf_texts.iter().map(|t| unshow(t)).collect();
        let picks = ordered(leaves.len(), 1, k);
        for s in list {
            let base = Gram::parse(&format!("epsilon _ start S : {}", s));
            let used: Vec<Sym> = [NA, NB, NC]
                .into_iter()
                .filter(|x| base.prods.iter().all(|p| p.0 != *x) && base.prods.iter().any(|p| p.1.contains(x)))
                .collect();
            let mut idx = vec![0usize; used.len()];
            'o: loop {
                let mut p = base.prods.clone();
                for (i, x) in used.iter().enumerate() {
                    p.extend(alts(*x, &leaves, &picks[idx[i]]));
                }
                f(gram(p), None);
                for i in 0..idx.len() {
                    idx[i] += 1;
                    if idx[i] < picks.len() {
                        continue 'o;
                    }
                    idx[i] = 0;
                }
                break;
            }
        }
    }
}

const SK2: &[&str] = &["S -> A B $"];
const SK2N: &[&str] = &[
    "S -> D $ ; D -> A B",
    "S -> D $ ; D -> A B ; D -> B",
    "S -> D b $ ; D -> A B",
    "S -> A D $ ; D -> B a ; D -> B",
    "S -> A D $ ; D -> b B ; D -> B A",
    "S -> A B $ ; S -> B A $",
    "S -> A B $ ; S -> A $ ; S -> B b $",
    "S -> D D $ ; D -> A B",
    "S -> A B A $",
    "S -> A b B $ ; S -> A a $",
    "S -> D E $ ; D -> A ; D -> a A ; E -> B ; E -> B b",
    "S -> D $ ; D -> A D ; D -> B",
    "S -> D $ ; D -> A ; D -> b D ; D -> A B",
    "S -> D B $ ; D -> E ; E -> A ; E -> A a",
];
const SK3: &[&str] = &["S -> A B C $", "S -> A D $ ; D -> B C", "S -> D C $ ; D -> A B ; D -> A", "S -> A B $ ; S -> A C $"];
const L7: &[&str] = &["_", "a", "b", "a a", "a b", "b a", "b b"];
const L5: &[&str] = &["_", "a", "b", "a a", "a b"];
const L4: &[&str] = &["_", "a", "a a", "b"];

fn parse_families(prop: &str, thorough: bool) -> Vec<Fam> {
    let need_mark = prop == "C06" || prop == "C07";
    let filter: fn(&Info) -> bool = match prop {
        "C06" => ll1_marked,
        "C07" => marked_only,
        _ => parseable,
    };
    let reach: fn(&Info) -> bool = match prop {
        "C06" => ll1_marked,
        "C07" => marked_reach,
        _ => parseable_reach,
    };
    let len = if thorough { 5 } else { 4 };
    let inp = match prop {
        "C09" => odd_inputs(),
        "C06" | "C07" => marked_inputs(len + 1),
        _ => std_inputs(len),
    };
    let small = if need_mark { marked_inputs(len) } else { std_inputs(len) };
    let mut v = vec![];
    let sizes = if prop == "C09" && !thorough {
        vec![(1, 0), (1, 1), (2, 0)]
    } else if thorough {
        vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (3, 0), (2, 2)]
    } else {
        vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (3, 0)]
    };
    v.push(fam(
        "marked",
        &format!("S -> w $, w of length 1-2 over {{A,B,a,b}}; A and B with (number of alternatives) {:?}, sides of length <= 2, every order", sizes),
        inp.clone(),
        reach,
        marked_small(2, sizes, 2, false),
    ));
    if thorough && need_mark {
        v.push(fam(
            "marked-long",
            "S -> w $, |w| = 1..3; A and B with one or two alternatives, 3 in all at most, sides of length <= 3",
            small.clone(),
            reach,
            marked_small(3, vec![(1, 1), (2, 0), (2, 1)], 3, false),
        ));
    }
    v.push(fam(
        "marked-dup",
        "as marked, with up to 3 alternatives of A, repetitions allowed, B with one",
        small.clone(),
        reach,
        marked_small(1, vec![(2, 0), (3, 0), (2, 1)], 2, true),
    ));
    v.push(fam(
        "siblings",
        "S -> A B $ where A and B have up to 3 (thorough 4) ordered alternatives from the strings over {a,b} of length <= 2",
        if prop == "C09" { short_inputs() } else { marked_inputs(len) },
        reach,
        skeletons(SK2, if thorough { L7 } else { L7 }, 3),
    ));
    v.push(fam(
        "nested",
        "14 skeletons with nesting and shared symbols, two leaf symbols with up to 2 ordered alternatives (thorough 3) from 5 strings",
        if prop == "C09" { short_inputs() } else { marked_inputs(5) },
        reach,
        skeletons(SK2N, L5, if thorough { 3 } else { 2 }),
    ));
    v.push(fam(
        "three-siblings",
        "4 skeletons with three leaf symbols, up to 2 (thorough 3) ordered alternatives from 4 strings",
        if prop == "C09" { short_inputs() } else { marked_inputs(5) },
        reach,
        skeletons(SK3, L4, if thorough { 3 } else { 2 }),
    ));
    if !need_mark {
        v.push(fam(
            "open",
            "no end marker: S and A, 1-2 ordered alternatives each, sides of length <= 2 over {S,A,a,b} or epsilon",
            if prop == "C09" { short_inputs() } else { std_inputs(4) },
            parseable,
            two(2, 2, true, false),
        ));
        v.push(fam("degenerate", "undefined, terminal and epsilon initial symbols, unused epsilon symbols", odd_inputs(), parseable, degenerate));
    }
    v.push(fam(
        "odd-tokens",
        "S -> w $, A and B with up to two alternatives in all; every sequence of 1-3 tokens over {a,b,$,z,epsilon,A,S}",
        odd_inputs(),
        reach,
        marked_small(2, vec![(1, 0), (1, 1), (2, 0)], 2, false),
    ));
    let (m, c, e) = if thorough { (9, 60, 12) } else { (7, 40, 6) };
    v.extend(curated_fam(0, m + 2, c * 4, e * 4, filter));
    v.extend(curated_fam(1, m, c, e, filter));
    if thorough {
        v.extend(curated_fam(2, 6, 25, 3, filter));
    }
    v.push(fam(
        "scale",
        "flat inputs up to 65537 tokens, lists up to 300 (thorough 2000) items, nesting up to 2000 (5000), up to 66000 (70000) siblings, alternatives, leftover alternatives; 300 optional symbols, unit links, retried siblings at a distance",
        none(),
        filter,
        move |f| scale_parse(thorough, need_mark, f),
    ));
    v.push(fam(
        "sym-types",
        "marked with one alternative each, three symbol types",
        small,
        reach,
        marked_small(2, vec![(1, 0), (1, 1), (2, 0)], 2, false),
    ));
    v
}

fn solver_families(prop: &str, thorough: bool) -> Vec<Fam> {
    let mut v = vec![];
    let wide = thorough || prop == "C12";
    let dev = if prop == "C12" { 0 } else { 2 };
    let sizes = if thorough || prop == "C12" {
        vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (3, 0)]
    } else {
        vec![(1, 0), (1, 1), (2, 0)]
    };
    v.push(fam(
        "marked",
        &format!("S -> w $, w of length 1-2 over {{A,B,a,b}}; A and B with (number of alternatives) {:?}, sides of length <= 2", sizes),
        short_inputs(),
        parseable_reach,
        marked_small(2, sizes, 2, false),
    ));
    if !wide {
        v.push(fam(
            "marked-21",
            "S -> w $, w of length 1 over {A,B,a,b}; A and B with 2+1 or 1+2 alternatives",
            rc(strings(&[TA, TB, END], 1, 2).into_iter().chain(["a a $", "a b $", "b a b", "b a $", "a z"].iter().map(|t| unshow(t))).collect()),
            parseable_reach,
            marked_small(1, vec![(2, 1), (1, 2)], 2, false),
        ));
    }
    v.push(fam(
        "open",
        "no end marker: S and A, 1-2 ordered alternatives (quick: at most 3 in all), sides of length <= 2",
        rc(strings(&[TA, TB, TZ], 1, 2)),
        parseable,
        move |f| {
            let gen = two(2, 2, true, false);
            gen(&mut |g, i| {
                if wide || g.prods.len() <= 3 {
                    f(g, i)
                }
            })
        },
    ));
    v.push(fam(
        "nested",
        "14 skeletons, two leaf symbols with up to 2 ordered alternatives from 4-5 strings",
        short_inputs(),
        parseable_reach,
        skeletons(SK2N, if wide { L5 } else { L4 }, 2),
    ));
    v.push(fam(
        "three-siblings",
        "4 skeletons with three leaf symbols, 1 (thorough 2) ordered alternatives from 4 strings",
        short_inputs(),
        parseable_reach,
        skeletons(SK3, L4, if wide { 2 } else { 1 }),
    ));
    v.push(fam("degenerate", "undefined, terminal and epsilon initial symbols", rc(strings(&[TA, TB, EPS], 1, 2)), parseable, degenerate));
    v.push(fam(
        "odd-tokens",
        "S -> w $, one alternative each for A and B or two for A; every sequence of 1-2 tokens over {a,$,z,epsilon,A,B}",
        rc(strings(&[TA, END, TZ, EPS, NA, NB], 1, 2)),
        parseable_reach,
        marked_small(2, vec![(1, 0), (1, 1)], 2, false),
    ));
    v.push(fam(
        "sym-types",
        "S -> w $, w of length 1; A and B with up to two alternatives in all; symbols whose hashes collide, and strings",
        rc(strings(&[TA, TB, END], 1, 2).into_iter().chain(["a b $", "b a $", "a a b"].iter().map(|t| unshow(t))).collect()),
        parseable_reach,
        marked_small(1, vec![(1, 0), (1, 1), (2, 0)], 2, false),
    ));
    let cur = |mut f: Vec<Fam>, d: usize| {
        for x in f.iter_mut() {
            x.deviations = d;
        }
        f
    };
    v.extend(cur(curated_fam(0, 7, 40, 8, parseable), dev));
    if thorough {
        v.extend(cur(curated_fam(1, 6, 12, 3, parseable), dev.min(1)));
    } else {
        v.extend(cur(curated_fam(1, 5, 5, 1, parseable), dev.min(1)));
    }
    v.push(fam("scale-many", "hundreds and thousands (2050, thorough 4100) of requests and fixes in one parse: lists, wide productions, nesting and chains in which everything fails; a failure after, before and among 66000 siblings or alternatives", none(), parseable, move |f| scale_many(thorough, f)));
    v.push(fam("scale", "error nesting and fan-out up to 24 (thorough 40)", none(), parseable, move |f| scale_solver(thorough, f)));
    for f in v.iter_mut() {
        if !f.name.starts_with("curated") && !f.name.starts_with("edited") {
            f.deviations = dev;
            f.all_positions = thorough || f.name == "nested" || f.name == "degenerate";
        }
        if f.name == "scale" {
            f.all_positions = false;
            f.deviations = dev.min(1);
        }
        if f.name == "scale-many" {
            f.all_positions = false;
            f.deviations = 0;
        }
    }
    v
}

fn history_families(thorough: bool) -> Vec<Fam> {
    let ws = |t: &[&str]| rc(t.iter().map(|x| unshow(x)).collect());
    let mut v = vec![];
    let four = ws(&["a b $", "a $", "a a", "b a $"]);
    let d = if thorough { 4 } else { 3 };
    v.push(fam("marked", "S -> w $, one or two alternatives in all for A and B; 4 inputs", four.clone(), parseable_reach, {
        marked_small(2, vec![(1, 0), (1, 1), (2, 0)], 2, false)
    }));
    v.push(fam("open", "no end marker: S and A, up to 3 productions in all; 4 inputs", ws(&["a b", "a", "b a", "z"]), parseable, move |f| {
        let gen = two(2, 2, true, false);
        gen(&mut |g, i| {
            if g.prods.len() <= if thorough { 3 } else { 2 } {
                f(g, i)
            }
        })
    }));
    v.push(fam("odd-tokens", "S -> w $, one alternative each for A and B; 4 inputs with tokens typed by non-terminals and epsilon", ws(&["a A $", "A $", "a a $", "_ z"]), parseable_reach, {
        marked_small(2, vec![(1, 0), (1, 1)], 2, false)
    }));
    v.push(fam("nested", "14 skeletons, two leaf symbols with up to 2 alternatives from 4 strings; 4 inputs", four, parseable_reach, skeletons(SK2N, L4, if thorough { 2 } else { 1 })));
    v.push(fam(
        "asked",
        "3 skeletons; A and B with one or two ordered alternatives from three strings, so that a solver asked too early changes the result; 4 inputs of the same length",
        ws(&["a b c $", "a c c $", "a b b $", "a b a $"]),
        parseable_reach,
        skeletons(&["S -> A B $", "S -> A B", "S -> D $ ; D -> A B"], &["a", "a b", "c", "b c"], 2),
    ));
    for f in v.iter_mut() {
        f.depth = if f.name == "nested" && !thorough { 4 } else { d };
        if thorough && f.name != "nested" {
            f.depth = 3;
        }
    }
    v.push(fam("generations", "51 grammars sharing names: each after each other one was prepared, used and dropped once to three times in the same memory, all in a row, and in processes of their own", none(), parseable, |f| {
        for (g, w) in generations() {
            f(g, Some(rc(w)));
        }
    }));
    for (i, mut f) in curated_fam(0, 7, 6, 1, parseable).into_iter().enumerate() {
        // one accepted, one cut, one changed and one longer input of the grammar
        let base = Gram::parse(CURATED[i].1);
        let words = language(&base, 8, 60);
        let mut list = vec![];
        if let (Some(a), Some(b)) = (words.first(), words.last()) {
            list.push(b.clone());
            list.push(a.clone());
            list.push(b[..b.len() - 1].to_vec());
            let mut c = b.clone();
            let m = c.len() / 2;
            c[m] = if c[m] == TA { TB } else { TA };
            list.push(c);
        }
        list.retain(|w| !w.is_empty());
        f.inputs = rc(list);
        f.depth = if thorough { 5 } else { 4 };
        v.push(f);
    }
    v
}

/// Grammars that take each other's place in C15: with the same symbols in other roles, of the same
/// sizes, of very different sizes.
pub fn generations() -> Vec<(Gram, Vec<Vec<Sym>>)> {
    let mut v: Vec<Gram> = CURATED.iter().map(|(_, t)| Gram::parse(t)).collect();
    for t in [
        "epsilon _ start S : S -> A b $ ; A -> a",
        "epsilon _ start S : S -> A b $ ; A -> b",
        "epsilon _ start S : S -> A b $ ; A -> _",
        "epsilon _ start S : S -> A b $ ; A -> a ; A -> a b",
        "epsilon _ start S : S -> A b $ ; A -> a b ; A -> a",
        "epsilon _ start S : S -> A b $ ; A -> B ; B -> a",
        "epsilon _ start S : S -> a b $",
        "epsilon _ start S : S -> b A $ ; A -> a",
        "epsilon _ start S : S -> A $ ; A -> b A ; A -> _",
        "epsilon _ start S : S -> A $ ; A -> a A ; A -> b",
        "epsilon _ start A : A -> S b ; S -> a",
        "epsilon a start S : S -> A b $ ; A -> a",
        "epsilon $ start S : S -> A b a ; A -> $",
    ] {
        v.push(Gram::parse(t));
    }
    let n = |i: usize| n(i + 1);
    for k in [3, 14, 60] {
        for (last, inner) in [(vec![TA], vec![]), (vec![EPS], vec![TB]), (vec![EPS], vec![])] {
            let mut p = vec![(NS, vec![n(0), END])];
            for i in 0..k {
                p.push((n(i), [vec![n(i + 1)], inner.clone()].concat()));
            }
            p.push((n(k), last));
            let mut q = p.clone();
            q.reverse();
            v.push(gram(p));
            v.push(gram(q));
        }
        let mut p = vec![(NS, vec![n(0), END])];
        p.extend((0..k).map(|i| (n(0), vec![t(i), TA])));
        v.push(gram(p));
    }
    v.into_iter()
        .map(|g| {
            let mut w = language(&g, 6, 3);
            w.extend(["a b $", "b $", "a $", "b a $", "a b", "b", "$", "a a b $", "b b b $"].iter().map(|x| unshow(x)));
            w.retain(|x| !x.is_empty() && x.len() < 80);
            w.truncate(10);
            (g, w)
        })
        .collect()
}

fn overlap_families(thorough: bool) -> Vec<Fam> {
    let ws = |t: &[&str]| rc(t.iter().map(|x| unshow(x)).collect());
    let four = ws(&["a b $", "b a $", "a a"]);
    let mut v = vec![];
    let mut m = fam("marked", "S -> w $, w of length 1; A and B with one or two alternatives in all; 3 inputs", four.clone(), parseable_reach, {
        marked_small(if thorough { 2 } else { 1 }, vec![(1, 0), (1, 1), (2, 0)], 2, false)
    });
    m.depth = 0;
    v.push(m);
    let mut f = fam("nested", "14 skeletons, two leaf symbols with one alternative from 4 strings; 3 inputs; thread schedules with two (thorough three) preemptions", four.clone(), parseable_reach, skeletons(SK2N, L4, 1));
    f.depth = if thorough { 3 } else { 2 };
    v.push(f);
    if thorough {
        let mut f = fam("nested-two", "14 skeletons, two leaf symbols with up to two alternatives from 4 strings; 3 inputs", four, parseable_reach, skeletons(SK2N, L4, 2));
        f.depth = 0;
        v.push(f);
    }
    let mut m = fam(
        "asked",
        "3 skeletons; A and B with one or two ordered alternatives from three strings, so that a solver asked too early changes the result; 4 inputs",
        ws(&["a b c $", "a c c $", "a b $", "a b b $"]),
        parseable_reach,
        skeletons(&["S -> A B $", "S -> A B", "S -> D $ ; D -> A B"], &["a", "a b", "b c"], 2),
    );
    m.depth = 0;
    v.push(m);
    for mut f in history_families(thorough) {
        if f.name.starts_with("curated") {
            f.depth = if thorough { 3 } else { 2 };
            let mut l = (*f.inputs).clone();
            l.sort_by_key(|w| w.len());
            l.truncate(if thorough { 4 } else { 3 });
            f.what = format!("{} of its inputs; thread schedules with {} preemptions", l.len(), f.depth);
            f.inputs = rc(l);
            v.push(f);
        }
    }
    v
}

fn given_families(thorough: bool) -> Vec<Fam> {
    let w = rc(strings(&[TA, TB, END], 1, 2)
        .into_iter()
        .chain(["a b $", "a a $", "b a $", "b b $", "a b a", "a z $", "a b a $", "a a b $", "b a b $"].iter().map(|t| unshow(t)))
        .collect());
    let mut v = vec![];
    let sizes = if thorough { vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2)] } else { vec![(1, 0), (1, 1), (2, 0)] };
    let mut m = fam(
        "marked",
        &format!("S -> w $; A and B with (number of alternatives) {:?}; every set of the grammar with one element changed", sizes),
        w.clone(),
        parseable_reach,
        marked_small(if thorough { 2 } else { 1 }, sizes, 2, false),
    );
    m.depth = 1;
    v.push(m);
    v.push(fam("nested", "14 skeletons, two leaf symbols with one (thorough up to two) alternatives from 4 strings; every one or two elements changed", w.clone(), parseable_reach, skeletons(SK2N, L4, if thorough { 2 } else { 1 })));
    let mut m = fam("nested-one", "14 skeletons, two leaf symbols with up to two (thorough three) alternatives from 4 strings; every one element changed", w.clone(), parseable_reach, skeletons(SK2N, L4, if thorough { 3 } else { 2 }));
    m.depth = 1;
    v.push(m);
    v.push(fam("open", "no end marker: S and A, up to 3 (thorough 4) productions; every one or two elements changed", rc(strings(&[TA, TB, TZ], 1, 3)), parseable, move |f| {
        let gen = two(2, 2, true, false);
        gen(&mut |g, i| {
            if g.prods.len() <= if thorough { 4 } else { 3 } {
                f(g, i)
            }
        })
    }));
    v.push(fam("sym-types", "as marked with one alternative each, two other symbol types", w, parseable_reach, marked_small(1, vec![(1, 0), (1, 1)], 2, false)));
    for mut f in curated_fam(0, 7, 30, 10, parseable).into_iter().chain(curated_fam(1, 5, 8, if thorough { 3 } else { 1 }, parseable)) {
        f.depth = if thorough { 2 } else { 1 };
        v.push(f);
    }
    let mut m = fam("scale", "lists of items: one of k tokens, k unit links deep, k tokens long, with k optional parts, k up to 9 (thorough 34); every one element changed", none(), parseable, move |f| {
        big_items(if thorough { &[3, 9, 17, 34] } else { &[3, 9] }, true, f)
    });
    m.depth = 1;
    v.push(m);
    let mut m = fam("scale-wide", "as scale without optional parts, k up to 130 (thorough 260); no element changed", none(), parseable, move |f| {
        big_items(if thorough { &[17, 34, 65, 127, 128, 129, 257] } else { &[17, 34, 65, 130] }, false, f)
    });
    m.depth = 0;
    v.push(m);
    v
}

fn keep_families(thorough: bool) -> Vec<Fam> {
    let few = rc(["a b $", "b a $", "a a", "a $", "b b $", "z", "a b a b $", "$"].iter().map(|x| unshow(x)).collect());
    let mut v = vec![];
    let sizes = if thorough { vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2)] } else { vec![(1, 0), (1, 1), (2, 0)] };
    v.push(fam("marked", &format!("S -> w $; A and B with (number of alternatives) {:?}, sides of length <= 2; 8 inputs", sizes), few.clone(), parseable_reach, marked_small(if thorough { 2 } else { 1 }, sizes, 2, false)));
    v.push(fam("nested", "14 skeletons, two leaf symbols with one (thorough up to two) alternatives from 4 strings; 8 inputs", few.clone(), parseable_reach, skeletons(SK2N, L4, if thorough { 2 } else { 1 })));
    v.push(fam("open", "no end marker: S and A, up to 3 productions in all; 6 inputs", rc(["a b", "a", "b a", "z", "a a a", "b"].iter().map(|x| unshow(x)).collect()), parseable, move |f| {
        let gen = two(2, 2, true, false);
        gen(&mut |g, i| {
            if g.prods.len() <= if thorough { 4 } else { 2 } {
                f(g, i)
            }
        })
    }));
    v.push(fam("odd-tokens", "S -> w $, A and B with one alternative each; inputs with tokens typed by non-terminals and epsilon", rc(["a A $", "A $", "a a $", "_ z", "S", "a b"].iter().map(|x| unshow(x)).collect()), parseable_reach, marked_small(2, vec![(1, 0)], 2, false)));
    v.push(fam("many-inputs", "10 skeletons-like grammars with all inputs over {a,b,$,z} of length 1-4", rc(strings(&[TA, TB, END, TZ], 1, if thorough { 5 } else { 4 })), parseable_reach, |f| {
        for t in ["S -> A B $ ; A -> a ; A -> a b ; B -> b ; B -> _", "S -> A $ ; A -> a A b ; A -> _", "S -> a S ; S -> b ; S -> _", "S -> A A $ ; A -> a ; A -> b ; A -> _", "S -> A S $ ; S -> b ; A -> a A ; A -> a"] {
            f(Gram::parse(&format!("epsilon _ start S : {}", t)), None)
        }
    }));
    v.push(fam("scale", "lists of items: one of k tokens, k unit links deep, k tokens long, with k optional parts, k up to 9 (thorough 34)", none(), parseable, move |f| {
        big_items(if thorough { &[3, 9, 17, 34] } else { &[3, 9] }, true, f)
    }));
    v.extend(curated_fam(0, 6, 4, 2, parseable));
    if thorough {
        v.extend(curated_fam(1, 4, 3, 1, parseable));
    }
    v
}

fn ll1_only(i: &Info) -> bool {
    !i.left_recursive && i.reachable_all() && i.ll1()
}

/// Lists of items: one of k tokens, k unit links deep, k tokens long, with k optional parts.
fn big_items(ks: &[usize], options: bool, f: Emit) {
    let n = |i: usize| n(i + 1);
    let list = vec![(NS, vec![n(0), NS]), (NS, vec![END])];
    let t = |i: usize| t(i + 40);
    for k in ks {
        let k = *k;
        let mut p = list.clone();
        p.extend((0..k).map(|i| (n(0), vec![t(i)])));
        f(gram(p), Some(rc(vec![vec![END], vec![t(0), END], vec![t(k - 1), t(k / 2), END], vec![t(k - 1), t(k - 1), END], vec![t(0), t(1), TZ]])));
        let mut p = list.clone();
        p.extend((0..k).map(|i| (n(i), vec![n(i + 1)])));
        p.push((n(k), vec![t(0)]));
        f(gram(p), Some(rc(vec![vec![t(0), END], vec![t(0), t(0), END], vec![t(0), t(1), END]])));
        let mut p = list.clone();
        p.push((n(0), (0..k).map(t).collect()));
        let w: Vec<Sym> = (0..k).map(t).collect();
        f(gram(p), Some(rc(vec![[w.clone(), vec![END]].concat(), [w.clone(), w.clone(), vec![END]].concat(), [w[1..].to_vec(), vec![END]].concat(), w.clone()])));
        if !options {
            continue;
        }
        let mut p = list.clone();
        p.push((n(0), (1..=k).map(n).chain([t(0)]).collect()));
        p.extend((1..=k).flat_map(|i| [(n(i), vec![t(i)]), (n(i), vec![EPS])]));
        f(gram(p), Some(rc(vec![vec![t(0), END], vec![t(k), t(0), END], vec![t(1), t(k / 2 + 1), t(0), END], vec![t(k), t(1), t(0), END]])));
    }
}

fn work_families(thorough: bool) -> Vec<Fam> {
    let w = marked_inputs(if thorough { 4 } else { 3 });
    let sizes = if thorough { vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (2, 2), (3, 0)] } else { vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2)] };
    let mut v = vec![fam("marked", &format!("S -> w $; A and B with (number of alternatives) {:?}, sides of length <= 2", sizes), w.clone(), ll1_only, marked_small(if thorough { 2 } else { 1 }, sizes, 2, false))];
    v.push(fam("marked-long", "S -> w $; A and B with one or two alternatives, sides of length <= 3", w.clone(), ll1_only, marked_small(1, if thorough { vec![(2, 0), (2, 1)] } else { vec![(2, 0)] }, 3, false)));
    v.push(fam("nested", "14 skeletons, two leaf symbols with up to 2 ordered alternatives from 5 strings", marked_inputs(4), ll1_only, skeletons(SK2N, L5, 2)));
    v.push(fam("open", "no end marker: S and A, 1-2 ordered alternatives each", std_inputs(4), ll1_only, two(2, 2, true, false)));
    v.extend(curated_fam(0, 7, 40, 0, ll1_only));
    v.extend(curated_fam(1, 6, if thorough { 20 } else { 6 }, 0, ll1_only));
    v.push(fam("scale", "lists of items: one of k tokens, k unit links deep, k tokens long, with k optional parts, k up to 34 (thorough 130)", none(), ll1_only, move |f| {
        big_items(if thorough { &[3, 9, 17, 34, 66, 130] } else { &[3, 9, 17, 34] }, true, f)
    }));
    v
}

fn prep_families(thorough: bool) -> Vec<Fam> {
    vec![fam("links", "links of one pattern referring to each other and the next two; the initial symbol uses the first, all in a row, one again and again, each, or rows of them; four kinds of end", none(), any, move |f| {
        crate::prep::grammars(thorough, &mut |g| f(g, None))
    })]
}

/// Chains of k links.
fn links(ks: &'static [usize], all: Vec<Vec<Vec<usize>>>) -> Fam {
    fam("links", "chains: each link an instance of one pattern, referring to itself and the next two, four kinds of end", none(), any, move |f| {
        for p in &all {
            for end in 0..4 {
                for k in ks {
                    f(crate::prep::chain(p, 0, end, *k), None);
                }
            }
        }
    })
}

fn order_families(thorough: bool) -> Vec<Fam> {
    let short = rc(["a", "b $", "a b $", "a a $", "b a", "a b a $"].iter().map(|x| unshow(x)).collect());
    let mut v = vec![];
    v.push(fam(
        "two-symbols",
        "S and A, 1-2 alternatives each, sides of length <= 2 over {S,A,a,b} or epsilon",
        short.clone(),
        any,
        two(2, if thorough { 2 } else { 2 }, thorough, false),
    ));
    v.push(fam(
        "marked",
        "S -> w $; A and B with up to 3 alternatives in all",
        short.clone(),
        any,
        marked_small(2, if thorough { vec![(1, 1), (2, 0), (2, 1), (1, 2)] } else { vec![(1, 1), (2, 0)] }, 2, false),
    ));
    for mut f in sets_families("C04", thorough) {
        if ["long-sides", "four-symbols", "three-links"].contains(&f.name.as_str()) && (thorough || f.name == "four-symbols") {
            f.inputs = rc(["a", "a b c", "b d", "a a d"].iter().map(|x| unshow(x)).collect());
            v.push(f);
        }
    }
    v.push(fam("nested", "14 skeletons, two leaf symbols with up to 2 alternatives from 4 strings", marked_inputs(3), any, skeletons(SK2N, L4, if thorough { 2 } else { 1 })));
    v.extend(curated_fam(0, 7, 30, 3, any));
    v.extend(curated_fam(1, 6, if thorough { 10 } else { 4 }, if thorough { 2 } else { 0 }, any));
    v.push(fam("scale-sets", "chains, rings, runs and fans up to 24 (thorough 70) symbols", rc(vec![]), any, move |f| {
        scale_sets(false, &mut |g, i| {
            if thorough || g.prods.len() <= 40 {
                f(g, i)
            }
        })
    }));
    v
}

fn lexeme_families(thorough: bool) -> Vec<Fam> {
    let mut v = vec![];
    let w = rc(["a", "b", "$", "a $", "b a", "a b $", "a a $", "b a $", "a a b", "a b a $", "z a", "A $", "a A", "_ a $", "a _"].iter().map(|x| unshow(x)).collect());
    v.push(fam("marked", "S -> w $; A and B with 1-2 (thorough 3) alternatives in all", w.clone(), parseable_reach, {
        marked_small(2, if thorough { vec![(1, 0), (1, 1), (2, 0), (2, 1), (1, 2)] } else { vec![(1, 0), (1, 1), (2, 0)] }, 2, false)
    }));
    v.push(fam("nested", "14 skeletons, two leaf symbols with 1-2 alternatives from 4 strings", w.clone(), parseable_reach, skeletons(SK2N, L4, 2)));
    v.push(fam("open", "no end marker: S and A, up to 3 productions", w, parseable, move |f| {
        let gen = two(2, 2, true, false);
        gen(&mut |g, i| {
            if thorough || g.prods.len() <= 3 {
                f(g, i)
            }
        })
    }));
    v.extend(curated_fam(0, 8, 40, 4, parseable));
    v.extend(curated_fam(1, 6, 5, 1, parseable));
    v.push(fam("scale", "long lists, wide alternatives", none(), parseable, move |f| {
        scale_parse(false, false, &mut |g, i| {
            let small = i.as_ref().map_or(true, |i| i.iter().all(|w| w.len() <= 700));
            if small {
                f(g, i)
            }
        })
    }));
    v
}

fn c01_families(thorough: bool) -> Vec<Fam> {
    let mut v = vec![];
    let sides = |alpha: &[Sym], l: usize| strings(alpha, 0, l);
    let prods = move |l: usize| -> Vec<(Sym, Vec<Sym>)> {
        let mut p = vec![];
        for h in [EPS, NA, NB] {
            for r in sides(&[EPS, NA, TA], l) {
                p.push((h, r));
            }
        }
        p
    };
    v.push(fam(
        "lists",
        "every list of up to 2 productions over heads {epsilon,A,B} and right-hand sides of length 0-3 over {epsilon,A,a}; 6 initial symbols, 3 epsilon symbols",
        none(),
        any,
        move |f| {
            let p = prods(3);
            for x in tuples(p.len(), 0, 2) {
                for (eps, start) in [(EPS, NA), (EPS, NS), (EPS, TA), (EPS, EPS), (EPS, NB), (TZ, NA), (TA, NA), (NA, NB), (NA, NA)] {
                    f(
                        Gram {
                            eps,
                            start,
                            prods: x.iter().map(|i| p[*i].clone()).collect(),
                        },
                        None,
                    );
                }
            }
        },
    ));
    v.push(fam(
        "lists-3",
        "every list of 3 or 4 productions, right-hand sides of length 0-2",
        none(),
        any,
        move |f| {
            let p = prods(2);
            for x in tuples(p.len(), 3, 4) {
                f(
                    Gram {
                        eps: EPS,
                        start: NA,
                        prods: x.iter().map(|i| p[*i].clone()).collect(),
                    },
                    None,
                );
            }
        },
    ));
    if thorough {
        v.push(fam("lists-5", "every list of 5 productions over heads {epsilon,A,B}, right-hand sides of length 0-2 over {epsilon,a,B}, fewer heads for longer sides", none(), any, |f| {
            let mut p: Vec<(Sym, Vec<Sym>)> = vec![];
            for r in strings(&[EPS, TA, NB], 0, 2) {
                p.push((NA, r.clone()));
                if r.len() < 2 {
                    p.push((NB, r.clone()));
                    p.push((EPS, r));
                }
            }
            let mut x = [0usize; 5];
            'all: loop {
                f(
                    Gram {
                        eps: EPS,
                        start: NA,
                        prods: x.iter().map(|i| p[*i].clone()).collect(),
                    },
                    None,
                );
                for i in 0..5 {
                    x[i] += 1;
                    if x[i] < p.len() {
                        continue 'all;
                    }
                    x[i] = 0;
                }
                break;
            }
        }));
    }
    if thorough {
        v.push(fam("lists-3-long", "every list of 3 productions, right-hand sides of length 0-3", none(), any, move |f| {
            let p = prods(3);
            for x in tuples(p.len(), 3, 3) {
                f(
                    Gram {
                        eps: EPS,
                        start: NA,
                        prods: x.iter().map(|i| p[*i].clone()).collect(),
                    },
                    None,
                );
            }
        }));
    }
    v.push(fam(
        "placed",
        "a flaw (none, epsilon head, empty side, epsilon among others) at every position of lists of 1-12 productions and of sides of length 1-12",
        none(),
        any,
        |f| {
            for k in 1..=12usize {
                for at in 0..k {
                    flawed(k, at, 2, f);
                    for other in 0..3 {
                        let mut r: Vec<Sym> = vec![[TA, NA, EPS][other]; k];
                        r[at] = EPS;
                        f(gram(vec![(NA, r.clone())]), None);
                        f(gram(vec![(NA, vec![TB]), (NB, r.clone()), (NA, vec![NB])]), None);
                        r[at] = TB;
                        f(gram(vec![(NS, r)]), None);
                    }
                }
            }
        },
    ));
    v.push(fam(
        "placed-many",
        "a flaw (none, epsilon head, empty side, epsilon among others) at every position of lists of up to 36 (thorough 80) productions of 1, 3, 5 and all different heads, and at ten positions of lists of up to 1100",
        none(),
        any,
        move |f| {
            for k in 4..=if thorough { 80usize } else { 36 } {
                for at in 0..k {
                    for heads in [1, 3, 5, k] {
                        flawed(k, at, heads, f);
                    }
                }
            }
            for k in [64, 65, 100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1025, 1100usize] {
                for at in [0, 1, k / 3, k / 2, k - 2, k - 1, 63, 64, k.min(257) - 2, k.min(257) - 1] {
                    for heads in [1, 5, k] {
                        flawed(k, at.min(k - 1), heads, f);
                    }
                    let mut r = vec![TA; k];
                    r[at.min(k - 1)] = EPS;
                    f(gram(vec![(NA, r)]), None);
                }
            }
        },
    ));
    v.push(fam("interleaved", "three heads with three alternatives each, every interleaving", none(), any, |f| {
        let heads = [NA, NB, NC];
        for x in tuples(3, 9, 9) {
            let mut c = [0u16; 3];
            let mut p = vec![];
            for i in x {
                c[i] += 1;
                if c[i] > 3 {
                    p.clear();
                    break;
                }
                p.push((heads[i], vec![TA + c[i], heads[(i + 1) % 3]]));
            }
            if p.len() == 9 {
                f(gram(p), None);
            }
        }
    }));
    v.extend(curated_fam(0, 0, 0, 0, any));
    v.extend(curated_fam(1, 0, 0, 0, any));
    v.push(fam("degenerate", "empty lists and odd initial symbols", none(), any, degenerate));
    v.push(fam("scale-sets", "many productions, symbols, alternatives (up to 200)", none(), any, move |f| {
        scale_sets(thorough, f)
    }));
    v.push(fam("scale-alternatives", "one head with up to 400 alternatives, repeated and not", none(), any, |f| {
        for k in (1..=70).chain([100, 127, 128, 129, 255, 256, 257, 399]) {
            let p: Vec<(Sym, Vec<Sym>)> = (0..k).map(|i| (NA, vec![t(i)])).collect();
            f(gram(p.clone()), None);
            let mut q = p.clone();
            q.extend(p.iter().rev().cloned());
            f(gram(q), None);
            let q: Vec<(Sym, Vec<Sym>)> = (0..k).map(|i| (n(i % 7), vec![t(i), n((i * 3) % 11)])).collect();
            f(gram(q), None);
        }
    }));
    v
}

/// k productions of the given number of heads, with each flaw in one of them.
fn flawed(k: usize, at: usize, heads: usize, f: Emit) {
    let head = |i: usize| match (heads, i % heads) {
        (2, 1) => NB,
        (_, 0) => NA,
        (_, j) => NB + j as Sym,
    };
    for flaw in 0..6 {
        let mut p: Vec<(Sym, Vec<Sym>)> = (0..k).map(|i| (head(i), vec![TA + i as Sym % 400, NB])).collect();
        match flaw {
            0 => {}
            1 => p[at].0 = EPS,
            2 => p[at].1 = vec![],
            3 => p[at].1 = vec![EPS, TA],
            4 => p[at].1 = vec![TA, EPS],
            _ => p[at].1 = vec![EPS],
        }
        f(gram(p.clone()), None);
        if heads == 2 {
            p.insert(at, (EPS, vec![EPS]));
            f(gram(p), None);
        }
    }
}

pub fn families(prop: &str, thorough: bool) -> Vec<Fam> {
    match prop {
        "C01" => c01_families(thorough),
        "C02" | "C03" | "C04" => sets_families(prop, thorough),
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => parse_families(prop, thorough),
        "C12" | "C13" | "C14" => solver_families(prop, thorough),
        "C15" => history_families(thorough),
        "C18" => overlap_families(thorough),
        "C20" | "C22" => work_families(thorough),
        "C23" => prep_families(thorough),
        "C21" => keep_families(thorough),
        "C19" => given_families(thorough),
        "C16" => order_families(thorough),
        "C17" => lexeme_families(thorough),
        _ => panic!("unknown property {}", prop),
    }
}
