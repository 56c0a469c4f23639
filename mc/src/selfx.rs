//! The reference models are checked against each other, over formulations that share no
//! code: word derivation (span fixed point) versus memoised end sets versus brute-force
//! rewriting; ordered choice (denotational, memoised) versus the call-by-call solver model
//! run without solver; FIRST/FOLLOW by reachability versus rewriting of sentential forms.
use crate::fam;
use crate::gram::*;
use crate::imp::*;
use crate::refm::*;
use crate::solvm::*;
use std::collections::{BTreeSet, HashSet};

fn tree(m: &Local, info: &Info, toks: &[Sym], id: u32) -> CNode {
    match &m.arena[id as usize] {
        MNode::Eps => CNode { sym: info.g.eps, lex: None, kids: vec![] },
        MNode::Tok(p) => CNode { sym: toks[*p], lex: Some(*p as u32), kids: vec![] },
        MNode::Nt(x, k) => CNode { sym: *x, lex: None, kids: k.iter().map(|k| tree(m, info, toks, *k)).collect() },
    }
}

/// All sentential forms reachable from one symbol by rewriting, up to a length.
fn forms(g: &Gram, from: Sym, len: usize, cap: usize) -> (HashSet<Vec<Sym>>, bool) {
    let heads: BTreeSet<Sym> = g.prods.iter().map(|p| p.0).collect();
    let mut seen: HashSet<Vec<Sym>> = HashSet::new();
    let mut todo = vec![vec![from]];
    seen.insert(vec![from]);
    let mut complete = true;
    while let Some(w) = todo.pop() {
        if seen.len() > cap {
            return (seen, false);
        }
        for (i, s) in w.iter().enumerate() {
            if !heads.contains(s) {
                continue;
            }
            for (l, r) in &g.prods {
                if l == s {
                    let mut v = w[..i].to_vec();
                    v.extend(r.iter().copied().filter(|x| *x != g.eps));
                    v.extend(&w[i + 1..]);
                    if v.len() > len {
                        complete = false;
                        continue;
                    }
                    if seen.insert(v.clone()) {
                        todo.push(v);
                    }
                }
            }
        }
    }
    let _ = complete;
    (seen, true)
}

pub fn run() -> bool {
    let mut n_ff = 0u64;
    let mut n_sparse = 0u64;
    let mut n_parse = 0u64;
    let mut n_words = 0u64;
    // FIRST / FOLLOW / nullable against rewriting: everything rewriting finds must be in the
    // sets, and for these small grammars forms of length <= 6 reach everything
    for f in fam::families("C02", false).into_iter().filter(|f| f.name != "giant") {
        (f.gen)(&mut |g, _| {
            if g.fingerprint() % 5 != 0 {
                return;
            }
            let info = Info::new(&g);
            let gs = crate::giant::sets(&g);
            n_sparse += 1;
            for (k, s) in gs.nts.iter().enumerate() {
                let i = info.nt(*s).unwrap();
                let mut first = info.first[i];
                if info.nullable[i] {
                    first.put(g.eps);
                }
                assert_eq!(gs.first[k], first.list(), "sparse FIRST {}", g.text());
                assert_eq!(gs.follow[k], info.follow[i].list(), "sparse FOLLOW {}", g.text());
            }
        });
    }
    for f in fam::families("C02", false) {
        if !["two-symbols", "three-symbols"].contains(&f.name.as_str()) {
            continue;
        }
        (f.gen)(&mut |g, _| {
            if g.fingerprint() % 40 != 0 {
                return;
            }
            let info = Info::new(&g);
            let mut first: Vec<BTreeSet<Sym>> = vec![BTreeSet::new(); info.nts.len()];
            let mut follow = first.clone();
            let mut full = true;
            for (i, x) in info.nts.iter().enumerate() {
                let (fs, all) = forms(&g, *x, 7, 20000);
                full &= all;
                let mut null = false;
                for w in &fs {
                    if w.is_empty() {
                        null = true;
                    }
                    if let Some(s) = w.first() {
                        if info.nt(*s).is_none() {
                            first[i].insert(*s);
                        }
                    }
                    for p in w.windows(2) {
                        if let (Some(k), None) = (info.nt(p[0]), info.nt(p[1])) {
                            follow[k].insert(p[1]);
                        }
                    }
                }
                assert!(!null || info.nullable[i], "nullable {}", g.text());
                assert!(!full || null || !info.nullable[i], "nullable {}", g.text());
            }
            if full {
                n_ff += 1;
                for i in 0..info.nts.len() {
                    assert_eq!(first[i].iter().copied().collect::<Vec<_>>(), info.first[i].list(), "FIRST {}", g.text());
                    assert_eq!(follow[i].iter().copied().collect::<Vec<_>>(), info.follow[i].list(), "FOLLOW {}", g.text());
                }
            }
        });
    }
    for prop in ["C07", "C08"] {
        for f in fam::families(prop, false) {
            if f.name == "scale" || f.name == "sym-types" {
                continue;
            }
            let filter = f.filter;
            (f.gen)(&mut |g, own| {
                if g.fingerprint() % 23 != 0 {
                    return;
                }
                let info = Info::new(&g);
                if !filter(&info) || info.left_recursive {
                    return;
                }
                let inputs = own.unwrap_or_else(|| f.inputs.clone());
                let ll1 = info.ll1() && info.end_marked();
                for w in inputs.iter() {
                    let mut m = Local::new(&info, w);
                    let a = m.parse().map(|(_, id)| tree(&m, &info, w, id));
                    let b = match SolvModel::new(&info, w, &[]).plain() {
                        CRes::Ok(n) => Some(n),
                        _ => None,
                    };
                    assert_eq!(a, b, "ordered choice: {} | {}", g.text(), show(w));
                    n_parse += 1;
                    let d = info.derives(w);
                    assert_eq!(d, info.derives_long(w), "derivation: {} | {}", g.text(), show(w));
                    if info.ll1() {
                        assert_eq!(d, info.derives_ll1(w), "LL(1) automaton: {} | {}", g.text(), show(w));
                    }
                    n_words += 1;
                    if info.end_marked() {
                        let s = info.sentence(w);
                        if ll1 {
                            // an LL(1) grammar needs no choice at all
                            assert_eq!(s, a.is_some(), "LL(1): {} | {}", g.text(), show(w));
                        } else {
                            assert!(s || a.is_none(), "soundness: {} | {}", g.text(), show(w));
                        }
                    }
                }
            });
        }
    }
    println!(
        "self-check: {} grammars by rewriting, {} by two formulations, {} parses by two models, {} words by two recognisers",
        n_ff, n_sparse, n_parse, n_words
    );
    n_ff > 0 && n_sparse > 0 && n_parse > 0
}
