//! Reference facts about a grammar, computed from the definitions and by other means
//! than the code under test: nullability by a worklist, FIRST and FOLLOW as reachability
//! in dependency graphs, recognition by span fixed point / memoised end sets.
use crate::gram::*;

pub struct Info<'g> {
    pub g: &'g Gram,
    pub nts: Vec<Sym>, // heads, in order of first declaration
    idx: Vec<u16>,     // symbol -> index in nts, or u16::MAX
    pub alts: Vec<Vec<usize>>, // per nt: production numbers in declaration order
    pub terms: Bs,     // terminals, epsilon included when it is used
    pub nullable: Vec<bool>,
    pub first: Vec<Bs>,  // without epsilon
    pub follow: Vec<Bs>,
    pub predict: Vec<Bs>, // per production: documented lookahead rule
    pub left_recursive: bool,
}

const NONE: u16 = u16::MAX;

fn closure(n: usize, edges: &[Vec<usize>]) -> Vec<Vec<usize>> {
    // nodes reachable from each node, itself included
    (0..n)
        .map(|s| {
            let mut seen = vec![false; n];
            let mut todo = vec![s];
            seen[s] = true;
            let mut out = vec![];
            while let Some(x) = todo.pop() {
                out.push(x);
                for &y in &edges[x] {
                    if !seen[y] {
                        seen[y] = true;
                        todo.push(y);
                    }
                }
            }
            out
        })
        .collect()
}

impl<'g> Info<'g> {
    pub fn nt(&self, s: Sym) -> Option<usize> {
        let i = self.idx[s as usize];
        if i == NONE {
            None
        } else {
            Some(i as usize)
        }
    }

    pub fn new(g: &'g Gram) -> Info<'g> {
        let mut idx = vec![NONE; MAXSYM];
        let mut nts: Vec<Sym> = vec![];
        let mut alts: Vec<Vec<usize>> = vec![];
        for (i, (l, _)) in g.prods.iter().enumerate() {
            if idx[*l as usize] == NONE {
                idx[*l as usize] = nts.len() as u16;
                nts.push(*l);
                alts.push(vec![]);
            }
            alts[idx[*l as usize] as usize].push(i);
        }
        let n = nts.len();
        let nti = |s: Sym| -> Option<usize> {
            let i = idx[s as usize];
            if i == NONE {
                None
            } else {
                Some(i as usize)
            }
        };
        let mut terms = Bs::new();
        for (_, r) in &g.prods {
            for s in r {
                if nti(*s).is_none() {
                    terms.put(*s);
                }
            }
        }
        // nullable: a production becomes "done" when all its symbols vanish
        let mut nullable = vec![false; n];
        let mut again = true;
        while again {
            again = false;
            for (l, r) in &g.prods {
                let li = nti(*l).unwrap();
                if !nullable[li]
                    && r.iter()
                        .all(|s| *s == g.eps || nti(*s).map_or(false, |i| nullable[i]))
                {
                    nullable[li] = true;
                    again = true;
                }
            }
        }
        let vanishes = |s: Sym| s == g.eps || nti(s).map_or(false, |i| nullable[i]);
        // FIRST: A -> alpha X beta with alpha vanishing: whatever begins X begins A
        let mut fe: Vec<Vec<usize>> = vec![vec![]; n];
        let mut fd: Vec<Bs> = vec![Bs::new(); n];
        for (l, r) in &g.prods {
            let li = nti(*l).unwrap();
            for s in r {
                match nti(*s) {
                    Some(i) => fe[li].push(i),
                    None => {
                        if *s != g.eps {
                            fd[li].put(*s)
                        }
                    }
                }
                if !vanishes(*s) {
                    break;
                }
            }
        }
        let reach = closure(n, &fe);
        let first: Vec<Bs> = (0..n)
            .map(|i| {
                let mut b = Bs::new();
                for &j in &reach[i] {
                    b.or(&fd[j]);
                }
                b
            })
            .collect();
        let left_recursive = (0..n).any(|i| fe[i].iter().any(|&j| reach[j].contains(&i)));
        // FOLLOW: direct successors, and X last (up to vanishing) in A inherits from A
        let mut le: Vec<Vec<usize>> = vec![vec![]; n];
        let mut ld: Vec<Bs> = vec![Bs::new(); n];
        for (l, r) in &g.prods {
            let li = nti(*l).unwrap();
            for (k, x) in r.iter().enumerate() {
                if let Some(xi) = nti(*x) {
                    let mut rest_vanishes = true;
                    for y in &r[k + 1..] {
                        match nti(*y) {
                            Some(yi) => ld[xi].or(&first[yi]),
                            None => {
                                if *y != g.eps {
                                    ld[xi].put(*y)
                                }
                            }
                        }
                        if !vanishes(*y) {
                            rest_vanishes = false;
                            break;
                        }
                    }
                    if rest_vanishes {
                        le[xi].push(li);
                    }
                }
            }
        }
        let lreach = closure(n, &le);
        let follow: Vec<Bs> = (0..n)
            .map(|i| {
                let mut b = Bs::new();
                for &j in &lreach[i] {
                    b.or(&ld[j]);
                }
                b
            })
            .collect();
        let mut info = Info {
            g,
            nts,
            idx,
            alts,
            terms,
            nullable,
            first,
            follow,
            predict: vec![],
            left_recursive,
        };
        info.predict = (0..g.prods.len())
            .map(|p| {
                info.rule(
                    p,
                    &|i| (info.first[i], info.nullable[i]),
                    &|i| info.follow[i],
                )
            })
            .collect();
        info
    }

    /// The lookahead rule of the documented algorithm 4.31, for given FIRST (without epsilon, vanishes?) and FOLLOW.
    pub fn rule(
        &self,
        p: usize,
        first: &dyn Fn(usize) -> (Bs, bool),
        follow: &dyn Fn(usize) -> Bs,
    ) -> Bs {
        let (l, r) = &self.g.prods[p];
        let mut b = Bs::new();
        for x in r {
            if *x == self.g.eps {
                continue;
            }
            match self.nt(*x) {
                None => {
                    b.put(*x);
                    return b;
                }
                Some(i) => {
                    let (f, v) = first(i);
                    b.or(&f);
                    if !v {
                        return b;
                    }
                }
            }
        }
        b.or(&follow(self.nt(*l).unwrap()));
        b
    }

    pub fn vanishes(&self, s: Sym) -> bool {
        s == self.g.eps || self.nt(s).map_or(false, |i| self.nullable[i])
    }

    /// Productions predicted for a non-terminal at a lookahead.
    pub fn cands(&self, nt: Sym, tok: Option<Sym>) -> Vec<usize> {
        match (self.nt(nt), tok) {
            (Some(i), Some(t)) => self.alts[i]
                .iter()
                .copied()
                .filter(|p| self.predict[*p].has(t))
                .collect(),
            _ => vec![],
        }
    }

    /// Every production of the initial symbol ends with END, which appears nowhere else,
    /// and the initial symbol is used on no right-hand side.
    pub fn end_marked(&self) -> bool {
        let g = self.g;
        self.nt(g.start).is_some()
            && self.nt(END).is_none()
            && g.eps != END
            && g.prods.iter().all(|(l, r)| {
                !r.contains(&g.start)
                    && if *l == g.start {
                        r.last() == Some(&END) && !r[..r.len() - 1].contains(&END)
                    } else {
                        !r.contains(&END)
                    }
            })
    }

    pub fn reachable_all(&self) -> bool {
        let n = self.nts.len();
        let s = match self.nt(self.g.start) {
            Some(s) => s,
            None => return false,
        };
        let mut seen = vec![false; n];
        let mut todo = vec![s];
        seen[s] = true;
        while let Some(x) = todo.pop() {
            for &p in &self.alts[x] {
                for y in &self.g.prods[p].1 {
                    if let Some(j) = self.nt(*y) {
                        if !seen[j] {
                            seen[j] = true;
                            todo.push(j);
                        }
                    }
                }
            }
        }
        seen.iter().all(|b| *b)
    }

    /// Per non-terminal and alternative: the tokens it can go on with, and whether it can vanish.
    fn lookaheads(&self) -> Vec<Vec<(Bs, bool)>> {
        let mut all = vec![];
        for (i, ps) in self.alts.iter().enumerate() {
            let mut sets: Vec<(Bs, bool)> = vec![];
            for &p in ps {
                let r = &self.g.prods[p].1;
                let mut b = Bs::new();
                let mut van = true;
                for s in r {
                    match self.nt(*s) {
                        Some(j) => b.or(&self.first[j]),
                        None => {
                            if *s != self.g.eps {
                                b.put(*s)
                            }
                        }
                    }
                    if !self.vanishes(*s) {
                        van = false;
                        break;
                    }
                }
                if van {
                    b.or(&self.follow[i]);
                }
                sets.push((b, van));
            }
            all.push(sets);
        }
        all
    }

    /// The textbook LL(1) condition.
    pub fn ll1(&self) -> bool {
        self.lookaheads().iter().all(|sets| (0..sets.len()).all(|x| (0..x).all(|y| !sets[x].0.meets(&sets[y].0) && !(sets[x].1 && sets[y].1))))
    }

    /// `derives` for LL(1) grammars: the textbook automaton with one stack.
    pub fn derives_ll1(&self, w: &[Sym]) -> bool {
        if self.nt(self.g.start).is_none() {
            return false;
        }
        let look = self.lookaheads();
        let mut stack = vec![self.g.start];
        let mut i = 0;
        while let Some(s) = stack.pop() {
            if s == self.g.eps {
                continue;
            }
            match self.nt(s) {
                None => {
                    if w.get(i) != Some(&s) {
                        return false;
                    }
                    i += 1;
                }
                Some(n) => {
                    let alt = match w.get(i) {
                        Some(t) => look[n].iter().position(|(b, _)| b.has(*t)),
                        None => look[n].iter().position(|(_, van)| *van),
                    };
                    match alt {
                        Some(a) => stack.extend(self.g.prods[self.alts[n][a]].1.iter().rev()),
                        None => return false,
                    }
                }
            }
        }
        i == w.len()
    }

    /// Is this exact word derived from the initial symbol?  (span fixed point, |w| < 63)
    pub fn derives(&self, w: &[Sym]) -> bool {
        assert!(w.len() < 63);
        let n = self.nts.len();
        let m = w.len() + 1;
        let s = match self.nt(self.g.start) {
            Some(s) => s,
            None => return false,
        };
        let mut d = vec![0u64; n * m];
        loop {
            let mut changed = false;
            for (l, r) in &self.g.prods {
                let li = self.nt(*l).unwrap();
                for i in 0..m {
                    let mut mask = 1u64 << i;
                    for x in r {
                        if *x == self.g.eps {
                            continue;
                        }
                        let mut nm = 0u64;
                        match self.nt(*x) {
                            None => {
                                for (e, t) in w.iter().enumerate() {
                                    if mask >> e & 1 == 1 && t == x {
                                        nm |= 1 << (e + 1);
                                    }
                                }
                            }
                            Some(j) => {
                                for e in 0..m {
                                    if mask >> e & 1 == 1 {
                                        nm |= d[j * m + e];
                                    }
                                }
                            }
                        }
                        mask = nm;
                        if mask == 0 {
                            break;
                        }
                    }
                    if mask & !d[li * m + i] != 0 {
                        d[li * m + i] |= mask;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        d[s * m] >> w.len() & 1 == 1
    }

    /// Same question for long words and grammars without left recursion: memoised sets of
    /// end positions, top down, no lookahead.
    pub fn derives_long(&self, w: &[Sym]) -> bool {
        let s = match self.nt(self.g.start) {
            Some(s) => s,
            None => return false,
        };
        let mut memo: std::collections::HashMap<(usize, usize), std::rc::Rc<Vec<usize>>> =
            Default::default();
        self.ends(s, 0, w, &mut memo).contains(&w.len())
    }

    fn ends(
        &self,
        nt: usize,
        i: usize,
        w: &[Sym],
        memo: &mut std::collections::HashMap<(usize, usize), std::rc::Rc<Vec<usize>>>,
    ) -> std::rc::Rc<Vec<usize>> {
        if let Some(v) = memo.get(&(nt, i)) {
            return v.clone();
        }
        let mut out = std::collections::BTreeSet::new();
        for &p in &self.alts[nt] {
            let mut cur: Vec<usize> = vec![i];
            for x in &self.g.prods[p].1 {
                if *x == self.g.eps {
                    continue;
                }
                let mut nxt = std::collections::BTreeSet::new();
                for e in cur {
                    match self.nt(*x) {
                        None => {
                            if e < w.len() && w[e] == *x {
                                nxt.insert(e + 1);
                            }
                        }
                        Some(j) => nxt.extend(self.ends(j, e, w, memo).iter()),
                    }
                }
                cur = nxt.into_iter().collect();
            }
            out.extend(cur);
        }
        let v = std::rc::Rc::new(out.into_iter().collect::<Vec<_>>());
        memo.insert((nt, i), v.clone());
        v
    }

    /// End-marked grammars: is the input up to and including the first END a sentence?
    pub fn sentence(&self, toks: &[Sym]) -> bool {
        match toks.iter().position(|t| *t == END) {
            None => false,
            Some(e) => {
                let w = &toks[..=e];
                if w.len() < 63 {
                    self.derives(w)
                } else if w.len() > 600 && self.ll1() {
                    self.derives_ll1(w)
                } else {
                    self.derives_long(w)
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------
// Ordered choice with sibling backtracking, denotationally: result(production, position)
// is the lexicographically first choice of one predicted alternative per non-terminal of
// the right-hand side such that each matches right after the previous one.

#[derive(Clone, Copy)]
enum Memo {
    Unknown,
    Fail,
    Ok { end: u32, node: u32 },
}

pub enum MNode {
    Eps,
    Tok(usize),
    Nt(Sym, Vec<u32>),
}

pub struct Local<'i, 'g> {
    info: &'i Info<'g>,
    toks: &'i [Sym],
    memo: Vec<Memo>,
    pub arena: Vec<MNode>,
    pub states: u64,
    pub steps: u64,
    pub retries: u64,
}

impl<'i, 'g> Local<'i, 'g> {
    pub fn new(info: &'i Info<'g>, toks: &'i [Sym]) -> Self {
        Local {
            info,
            toks,
            memo: vec![Memo::Unknown; info.g.prods.len() * (toks.len() + 1)],
            arena: vec![],
            states: 0,
            steps: 0,
            retries: 0,
        }
    }

    /// (end position, root node) or None
    pub fn parse(&mut self) -> Option<(usize, u32)> {
        let s = self.info.g.start;
        for p in self.info.cands(s, self.toks.first().copied()) {
            if let Some(r) = self.prod(p, 0) {
                return Some(r);
            }
        }
        None
    }

    fn prod(&mut self, p: usize, pos: usize) -> Option<(usize, u32)> {
        let k = p * (self.toks.len() + 1) + pos;
        match self.memo[k] {
            Memo::Fail => return None,
            Memo::Ok { end, node } => return Some((end as usize, node)),
            Memo::Unknown => {}
        }
        self.states += 1;
        let mut kids = vec![];
        let r = self.rest(p, 0, pos, &mut kids);
        match r {
            None => {
                self.memo[k] = Memo::Fail;
                None
            }
            Some(end) => {
                let node = self.arena.len() as u32;
                self.arena.push(MNode::Nt(self.info.g.prods[p].0, kids));
                self.memo[k] = Memo::Ok {
                    end: end as u32,
                    node,
                };
                Some((end, node))
            }
        }
    }

    fn rest(&mut self, p: usize, i: usize, pos: usize, kids: &mut Vec<u32>) -> Option<usize> {
        let info = self.info;
        let rhs = &info.g.prods[p].1;
        // terminals and epsilon offer no choice: walk over them without recursion
        let mut i = i;
        let mut pos = pos;
        let base = kids.len();
        loop {
            self.steps += 1;
            if i == rhs.len() {
                return Some(pos);
            }
            let x = rhs[i];
            if x == info.g.eps {
                self.arena.push(MNode::Eps);
                kids.push(self.arena.len() as u32 - 1);
                i += 1;
            } else if info.nt(x).is_none() {
                if pos < self.toks.len() && self.toks[pos] == x {
                    self.arena.push(MNode::Tok(pos));
                    kids.push(self.arena.len() as u32 - 1);
                    pos += 1;
                    i += 1;
                } else {
                    kids.truncate(base);
                    return None;
                }
            } else {
                break;
            }
        }
        let mut tries = 0;
        for c in info.cands(rhs[i], self.toks.get(pos).copied()) {
            if let Some((e, node)) = self.prod(c, pos) {
                tries += 1;
                if tries > 1 {
                    self.retries += 1;
                }
                kids.push(node);
                if let Some(end) = self.rest(p, i + 1, e, kids) {
                    return Some(end);
                }
                kids.pop();
            }
        }
        kids.truncate(base);
        None
    }
}
