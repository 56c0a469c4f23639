//! Adaptors around the real crate: building its objects from `Gram`, running them, and
//! turning what they return into plain comparable values.
use crate::gram::*;
use crate::hook::{tick, ASK, CLONE, EQ, HASH, ITER};
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub type Cfg<T> = ContextFreeGrammar<T>;
pub type Prod<T> = ContextFreeGrammarProduction<T>;
pub type Node<T> = AbstractSyntaxNode<Token<Lex, T>>;
pub type Parser<'a, T, S> = RecursiveDescentParser<'a, Lex, T, S>;
pub type Res<T> = ParseResult<Lex, T>;

/// Symbol types the crate is run with.  They can do more than it asks for, so that the checks
/// still build should it ask for more.
pub trait Sy: Clone + Eq + Hash + Ord + std::fmt::Debug {
    fn mk(s: Sym) -> Self;
    fn id(&self) -> Sym;
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Y(pub u16);
impl Sy for Y {
    fn mk(s: Sym) -> Self {
        Y(s)
    }
    fn id(&self) -> Sym {
        self.0
    }
}
/// All symbols collide.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct K(pub u16);
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(1)
    }
}
impl Sy for K {
    fn mk(s: Sym) -> Self {
        K(s)
    }
    fn id(&self) -> Sym {
        self.0
    }
}
/// Heap-allocated symbols.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Z(pub String);
impl Sy for Z {
    fn mk(s: Sym) -> Self {
        Z(name(s))
    }
    fn id(&self) -> Sym {
        unname(&self.0)
    }
}

/// Symbols that carry more than what they are compared by: the second part is 1 + the position
/// of the token it came with, 0 in grammars.
#[derive(Clone, Debug)]
pub struct D(pub u16, pub u32);
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.0 == o.0
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for D {
    fn hash<S: Hasher>(&self, h: &mut S) {
        h.write_u16(self.0)
    }
}
impl Sy for D {
    fn mk(s: Sym) -> Self {
        D(s, 0)
    }
    fn id(&self) -> Sym {
        self.0
    }
}

/// Symbols whose comparison, hashing and cloning are scheduling points.
#[derive(Debug)]
pub struct H(pub u16);
impl PartialEq for H {
    fn eq(&self, o: &H) -> bool {
        tick(EQ);
        self.0 == o.0
    }
}
impl Eq for H {}
impl PartialOrd for H {
    fn partial_cmp(&self, o: &H) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for H {
    fn cmp(&self, o: &H) -> std::cmp::Ordering {
        tick(EQ);
        self.0.cmp(&o.0)
    }
}
impl Hash for H {
    fn hash<S: Hasher>(&self, h: &mut S) {
        tick(HASH);
        h.write_u16(self.0)
    }
}
impl Clone for H {
    fn clone(&self) -> H {
        tick(CLONE);
        H(self.0)
    }
}
impl Sy for H {
    fn mk(s: Sym) -> Self {
        H(s)
    }
    fn id(&self) -> Sym {
        self.0
    }
}

/// Lexemes: only Clone, as the crate requires (and Debug).
#[derive(Debug)]
pub struct Lex(pub u32);
impl Clone for Lex {
    fn clone(&self) -> Lex {
        tick(crate::hook::LEX);
        Lex(self.0)
    }
}

/// A token sequence delivered in different ways.  kind 0: as a vector does; 1: without size
/// hint; 2: with a useless upper bound; 3: more items follow after the end was announced.
pub struct Feed<T> {
    items: std::vec::IntoIter<Token<Lex, T>>,
    kind: u8,
    ended: bool,
}
impl<T: Sy> Feed<T> {
    pub fn new(w: &[Sym], kind: u8) -> Feed<T> {
        Feed {
            items: tokens::<T>(w).into_iter(),
            kind,
            ended: false,
        }
    }
}
impl<T: Sy> Iterator for Feed<T> {
    type Item = Token<Lex, T>;
    fn next(&mut self) -> Option<Token<Lex, T>> {
        tick(ITER);
        if self.ended && self.kind == 3 {
            return Some(Token::new(Some(Lex(9999)), T::mk(TA)));
        }
        let t = self.items.next();
        self.ended |= t.is_none();
        t
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.kind {
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            _ => self.items.size_hint(),
        }
    }
}

pub fn productions<T: Sy>(g: &Gram) -> Vec<Prod<T>> {
    g.prods
        .iter()
        .map(|(l, r)| Prod::new(T::mk(*l), r.iter().map(|s| T::mk(*s)).collect()))
        .collect()
}

pub fn build<T: Sy>(g: &Gram) -> Cfg<T> {
    Cfg::new(T::mk(g.eps), T::mk(g.start), productions(g))
}

/// Token i gets lexeme Some(i): distinct lexemes.
pub fn tokens<T: Sy>(w: &[Sym]) -> Vec<Token<Lex, T>> {
    w.iter()
        .enumerate()
        .map(|(i, s)| Token::new(Some(Lex(i as u32)), T::mk(*s)))
        .collect()
}

/// The same, made one by one.
pub fn lazy<'a, T: Sy>(w: &'a [Sym]) -> impl Iterator<Item = Token<Lex, T>> + 'a {
    w.iter().enumerate().map(|(i, s)| Token::new(Some(Lex(i as u32)), T::mk(*s)))
}

// ------------------------------------------------------------------ plain results

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CNode {
    pub sym: Sym,
    pub lex: Option<u32>,
    pub kids: Vec<CNode>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum CPart {
    Ok(CNode),
    Fixed(CFix),
    Gap(Vec<u32>, Vec<Sym>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CFix {
    pub sym: Sym,
    pub parts: Vec<CPart>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum CParsed {
    Ok(CNode),
    Fix(CFix),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CFailProd {
    pub parsed: Vec<CParsed>,
    pub failed: CFail,
    pub pending: Vec<Sym>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CFail {
    pub sym: Sym,
    pub prods: Vec<CFailProd>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum CRes {
    Ok(CNode),
    Err(CFail),
    Fix(CFix),
}

pub fn c_node<T: Sy>(n: &Node<T>) -> CNode {
    CNode {
        sym: n.token.t_type.id(),
        lex: n.token.lex.as_ref().map(|l| l.0),
        kids: n.child_nodes.iter().map(c_node).collect(),
    }
}
pub fn c_fix<T: Sy>(f: &FixedSymbol<Lex, T>) -> CFix {
    CFix {
        sym: f.symbol_to_derive.id(),
        parts: c_parts(&f.fixed_production),
    }
}
pub fn c_parts<T: Sy>(p: &FixedProduction<Lex, T>) -> Vec<CPart> {
    p.fixed_parts
        .iter()
        .map(|p| match p {
            FixedProductionPart::Ok(n) => CPart::Ok(c_node(n)),
            FixedProductionPart::Fixed(f) => CPart::Fixed(c_fix(f)),
            FixedProductionPart::Gap(g) => CPart::Gap(
                g.skipped_tokens.iter().map(|l| l.0).collect(),
                g.skipped_symbols.iter().map(|s| s.id()).collect(),
            ),
        })
        .collect()
}
pub fn c_failprod<T: Sy>(f: &FailedProduction<Lex, T>) -> CFailProd {
    CFailProd {
        parsed: f
            .parsed_symbols
            .iter()
            .map(|p| match p {
                ProductionParsedSymbol::Ok(n) => CParsed::Ok(c_node(n)),
                ProductionParsedSymbol::Fix(x) => CParsed::Fix(c_fix(x)),
            })
            .collect(),
        failed: c_fail(&f.failed_symbol),
        pending: f.pending_symbols.iter().map(|s| s.id()).collect(),
    }
}
pub fn c_fail<T: Sy>(f: &FailedSymbol<Lex, T>) -> CFail {
    CFail {
        sym: f.symbol_to_derive.id(),
        prods: f.failed_productions.iter().map(c_failprod).collect(),
    }
}
pub fn c_res<T: Sy>(r: &Res<T>) -> CRes {
    match r {
        ParseResult::Ok(t) => CRes::Ok(c_node(&t.root)),
        ParseResult::Err(f) => CRes::Err(c_fail(f)),
        ParseResult::Fix(f) => CRes::Fix(c_fix(f)),
    }
}

// printable forms -------------------------------------------------------------------

pub fn t_node(n: &CNode) -> String {
    let mut s = name(n.sym);
    if let Some(l) = n.lex {
        s += &format!("#{}", l);
    }
    if !n.kids.is_empty() {
        s += "(";
        s += &n.kids.iter().map(t_node).collect::<Vec<_>>().join(" ");
        s += ")";
    }
    s
}
pub fn t_parts(p: &[CPart]) -> String {
    p.iter()
        .map(|p| match p {
            CPart::Ok(n) => t_node(n),
            CPart::Fixed(f) => t_fix(f),
            CPart::Gap(a, b) => format!("gap{:?}/{}", a, show(b)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn t_fix(f: &CFix) -> String {
    format!("FIXED {}[{}]", name(f.sym), t_parts(&f.parts))
}
pub fn t_failprod(f: &CFailProd) -> String {
    format!(
        "<parsed: {} | failed: {} | pending: {}>",
        f.parsed
            .iter()
            .map(|p| match p {
                CParsed::Ok(n) => t_node(n),
                CParsed::Fix(x) => t_fix(x),
            })
            .collect::<Vec<_>>()
            .join(" "),
        t_fail(&f.failed),
        show(&f.pending)
    )
}
pub fn t_fail(f: &CFail) -> String {
    format!(
        "{}{{{}}}",
        name(f.sym),
        f.prods.iter().map(t_failprod).collect::<Vec<_>>().join(" ")
    )
}
pub fn t_res(r: &CRes) -> String {
    match r {
        CRes::Ok(n) => format!("Ok {}", t_node(n)),
        CRes::Err(f) => format!("Err {}", t_fail(f)),
        CRes::Fix(f) => format!("Fix {}", t_fix(f)),
    }
}

// ------------------------------------------------------------------ solvers

/// A solver type for parsers built without one; being asked is recorded.
#[derive(Debug)]
pub struct NoSolver;
impl<T> SyntaxErrorSolver<Lex, T> for NoSolver {
    fn fix_failed_production(
        &self,
        _: &Vec<Token<Lex, T>>,
        _: usize,
        _: &FailedProduction<Lex, T>,
    ) -> Option<FixResult<Lex, T>> {
        panic!("solver consulted on a parser without solver")
    }
    fn fix_failed_productions(
        &self,
        _: &Vec<Token<Lex, T>>,
        _: usize,
        _: &Vec<FailedProduction<Lex, T>>,
    ) -> Option<FixResult<Lex, T>> {
        panic!("solver consulted on a parser without solver")
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Call {
    pub single: bool,
    pub toks: Vec<(Sym, Option<u32>)>,
    pub pos: usize,
    pub fails: Vec<CFailProd>,
}

/// A script may end in `Some(PERSIST + k)`: from there on every request is answered by rule k.
pub const PERSIST: usize = usize::MAX - 8;

/// The answer to request number i about `pos` of n tokens.
pub fn reply(script: &[Option<usize>], i: usize, pos: usize, n: usize) -> Option<usize> {
    match script.last() {
        Some(Some(p)) if *p > PERSIST && i + 1 >= script.len() => match p - PERSIST {
            1 => Some(pos + 1),
            2 if i < 8 => Some(pos),
            3 => Some(n),
            4 if i % 2 == 1 => Some(pos + 2),
            5 if i % 3 > 0 => Some(pos + 2),
            _ => None,
        },
        _ => script.get(i).copied().flatten(),
    }
}

/// Answers calls from a script (None = decline, Some(p) = a fix resuming at p); beyond the
/// script it declines.  Every call is logged.
#[derive(Clone)]
pub struct Script {
    pub answers: Rc<RefCell<Vec<Option<usize>>>>,
    pub log: Rc<RefCell<Vec<Call>>>,
    pub keep_log: bool,
}

impl Script {
    pub fn new(answers: &[Option<usize>]) -> Script {
        Script {
            answers: Rc::new(RefCell::new(answers.to_vec())),
            log: Rc::new(RefCell::new(vec![])),
            keep_log: true,
        }
    }
    fn answer<T: Sy>(&self, call: Call) -> Option<FixResult<Lex, T>> {
        let i = self.log.borrow().len();
        let (pos, n) = (call.pos, call.toks.len());
        self.log.borrow_mut().push(call);
        let a = reply(&self.answers.borrow(), i, pos, n);
        a.map(|p| FixResult {
            final_token_position: p,
            production: fix_production(i),
        })
    }
}

/// The i-th fix handed out: recognisable content of every kind of part, an empty one, and
/// one of parsed parts only.
fn fix_production<T: Sy>(i: usize) -> FixedProduction<Lex, T> {
    let kind = i % 3;
    let i = i as u32;
    if kind == 1 {
        return FixedProduction::new(vec![]);
    }
    let made = AbstractSyntaxNode::new(vec![], Token::new(Some(Lex(3000 + i)), T::mk(TZ)));
    if kind == 2 {
        return FixedProduction::new(vec![FixedProductionPart::Ok(AbstractSyntaxNode::new(
            vec![made],
            Token::new(None, T::mk(EPS)),
        ))]);
    }
    FixedProduction::new(vec![
        FixedProductionPart::Gap(FixGap {
            skipped_tokens: vec![Lex(1000 + i), Lex(2000 + i)],
            skipped_symbols: vec![T::mk(TC), T::mk(EPS)],
        }),
        FixedProductionPart::Ok(made),
        FixedProductionPart::Fixed(FixedSymbol::new(
            FixedProduction::new(vec![]),
            T::mk(TC),
        )),
    ])
}
pub fn c_fix_production(i: usize) -> Vec<CPart> {
    c_parts(&fix_production::<Y>(i))
}

/// A solver without memory: kind 0 declines, kind 1 resumes one token on, kind 2 two tokens
/// on unless asked about a single production, kind 3 at the end, only when asked about a
/// single one.  It declines at the end of the input: every fix makes progress.
#[derive(Clone, Debug)]
pub struct Steady(pub usize);
impl Steady {
    fn answer<T: Sy>(&self, single: bool, n: usize, pos: usize) -> Option<FixResult<Lex, T>> {
        tick(ASK);
        let at = match self.0 {
            0 => return None,
            _ if pos >= n => return None,
            1 => pos + 1,
            2 if !single => n.min(pos + 2),
            3 if single => n,
            _ => return None,
        };
        Some(FixResult {
            final_token_position: at,
            production: fix_production(pos),
        })
    }
}
impl<T: Sy> SyntaxErrorSolver<Lex, T> for Steady {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<Lex, T>>,
        pos: usize,
        _: &FailedProduction<Lex, T>,
    ) -> Option<FixResult<Lex, T>> {
        self.answer(true, tokens.len(), pos)
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<Lex, T>>,
        pos: usize,
        _: &Vec<FailedProduction<Lex, T>>,
    ) -> Option<FixResult<Lex, T>> {
        self.answer(false, tokens.len(), pos)
    }
}

fn c_toks<T: Sy>(t: &Vec<Token<Lex, T>>) -> Vec<(Sym, Option<u32>)> {
    t.iter()
        .map(|t| (t.t_type.id(), t.lex.as_ref().map(|l| l.0)))
        .collect()
}

impl<T: Sy> SyntaxErrorSolver<Lex, T> for Script {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<Lex, T>>,
        pos: usize,
        f: &FailedProduction<Lex, T>,
    ) -> Option<FixResult<Lex, T>> {
        self.answer(Call {
            single: true,
            toks: c_toks(tokens),
            pos,
            fails: if self.keep_log { vec![c_failprod(f)] } else { vec![] },
        })
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<Lex, T>>,
        pos: usize,
        f: &Vec<FailedProduction<Lex, T>>,
    ) -> Option<FixResult<Lex, T>> {
        self.answer(Call {
            single: false,
            toks: c_toks(tokens),
            pos,
            fails: if self.keep_log { f.iter().map(c_failprod).collect() } else { vec![] },
        })
    }
}
