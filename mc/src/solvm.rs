//! Reference model of parsing with an error solver, written from the documented contract:
//! try without any help first; if that fails, descend again, asking the solver about each
//! failed symbol all of whose enclosing symbols had exactly one candidate production.
use crate::gram::*;
use crate::imp::*;
use crate::refm::Info;

pub struct SolvModel<'i, 'g> {
    pub info: &'i Info<'g>,
    pub toks: &'i [Sym],
    pub answers: &'i [Option<usize>],
    pub log: Vec<Call>,
    pub steps: u64,
    ask: bool,
}

enum R {
    Ok(CNode, usize, Vec<usize>), // node, end, untried alternatives
    Err(CFail),
    Fix(CFix, usize),
}
enum RP {
    Ok(CNode, usize),
    Err(CFailProd),
    Fix(Vec<CPart>, usize),
}
enum St {
    Ok {
        node: CNode,
        start: usize,
        end: usize,
        left: Vec<usize>,
    },
    Fix(CFix, usize),
}

impl<'i, 'g> SolvModel<'i, 'g> {
    pub fn new(info: &'i Info<'g>, toks: &'i [Sym], answers: &'i [Option<usize>]) -> Self {
        SolvModel {
            info,
            toks,
            answers,
            log: vec![],
            steps: 0,
            ask: false,
        }
    }

    /// Without a solver: (also the first pass of a parser with one)
    pub fn plain(&mut self) -> CRes {
        self.ask = false;
        self.top()
    }

    pub fn run(&mut self) -> CRes {
        match self.plain() {
            CRes::Err(_) => {
                self.ask = true;
                self.top()
            }
            r => r,
        }
    }

    fn top(&mut self) -> CRes {
        let s = self.info.g.start;
        let c = self.info.cands(s, self.toks.first().copied());
        match self.symbol(s, 0, c, true) {
            R::Ok(n, _, _) => CRes::Ok(n),
            R::Err(f) => CRes::Err(f),
            R::Fix(f, _) => CRes::Fix(f),
        }
    }

    fn symbol(&mut self, x: Sym, pos: usize, cands: Vec<usize>, alone: bool) -> R {
        let child_alone = alone && cands.len() == 1;
        let mut fails = vec![];
        for (k, c) in cands.iter().enumerate() {
            match self.production(x, *c, pos, child_alone) {
                RP::Ok(n, end) => return R::Ok(n, end, cands[k + 1..].to_vec()),
                RP::Fix(parts, end) => return R::Fix(CFix { sym: x, parts }, end),
                RP::Err(f) => fails.push(f),
            }
        }
        if self.ask && alone {
            let i = self.log.len();
            self.log.push(Call {
                single: cands.len() == 1,
                toks: self
                    .toks
                    .iter()
                    .enumerate()
                    .map(|(i, t)| (*t, Some(i as u32)))
                    .collect(),
                pos,
                fails: fails.clone(),
            });
            if let Some(p) = reply(self.answers, i, pos, self.toks.len()) {
                return R::Fix(
                    CFix {
                        sym: x,
                        parts: c_fix_production(i),
                    },
                    p,
                );
            }
        }
        R::Err(CFail {
            sym: x,
            prods: fails,
        })
    }

    fn production(&mut self, x: Sym, p: usize, pos: usize, alone: bool) -> RP {
        let info = self.info;
        let rhs = &info.g.prods[p].1;
        let mut done: Vec<St> = vec![];
        while done.len() < rhs.len() {
            self.steps += 1;
            let y = rhs[done.len()];
            let at = match done.last() {
                None => pos,
                Some(St::Ok { end, .. }) => *end,
                Some(St::Fix(_, end)) => *end,
            };
            let leaf = |lex| CNode {
                sym: y,
                lex,
                kids: vec![],
            };
            let fail = if y == info.g.eps {
                done.push(St::Ok {
                    node: leaf(None),
                    start: at,
                    end: at,
                    left: vec![],
                });
                None
            } else if info.nt(y).is_none() {
                if self.toks.get(at) == Some(&y) {
                    done.push(St::Ok {
                        node: leaf(Some(at as u32)),
                        start: at,
                        end: at + 1,
                        left: vec![],
                    });
                    None
                } else {
                    Some(CFail {
                        sym: y,
                        prods: vec![],
                    })
                }
            } else {
                let c = info.cands(y, self.toks.get(at).copied());
                match self.symbol(y, at, c, alone) {
                    R::Ok(node, end, left) => {
                        done.push(St::Ok {
                            node,
                            start: at,
                            end,
                            left,
                        });
                        None
                    }
                    R::Fix(f, end) => {
                        done.push(St::Fix(f, end));
                        None
                    }
                    R::Err(f) => Some(f),
                }
            };
            if let Some(failed) = fail {
                // closest preceding sibling with an alternative that still matches
                let mut resumed = false;
                for k in (0..done.len()).rev() {
                    let (start, left) = match &done[k] {
                        St::Ok { start, left, .. } if !left.is_empty() => (*start, left.clone()),
                        _ => continue,
                    };
                    if let R::Ok(node, end, left) = self.symbol(rhs[k], start, left, false) {
                        done.truncate(k);
                        done.push(St::Ok {
                            node,
                            start,
                            end,
                            left,
                        });
                        resumed = true;
                        break;
                    }
                }
                if !resumed {
                    let n = done.len();
                    return RP::Err(CFailProd {
                        parsed: done
                            .into_iter()
                            .map(|s| match s {
                                St::Ok { node, .. } => CParsed::Ok(node),
                                St::Fix(f, _) => CParsed::Fix(f),
                            })
                            .collect(),
                        failed,
                        pending: rhs[n + 1..].to_vec(),
                    });
                }
            }
        }
        let end = match done.last() {
            None => pos,
            Some(St::Ok { end, .. }) => *end,
            Some(St::Fix(_, end)) => *end,
        };
        if done.iter().any(|s| matches!(s, St::Fix(..))) {
            RP::Fix(
                done.into_iter()
                    .map(|s| match s {
                        St::Ok { node, .. } => CPart::Ok(node),
                        St::Fix(f, _) => CPart::Fixed(f),
                    })
                    .collect(),
                end,
            )
        } else {
            RP::Ok(
                CNode {
                    sym: x,
                    lex: None,
                    kids: done
                        .into_iter()
                        .map(|s| match s {
                            St::Ok { node, .. } => node,
                            _ => unreachable!(),
                        })
                        .collect(),
                },
                end,
            )
        }
    }
}
