//! Per-worker context: counters, the progress cell shared with the supervisor, and the
//! guard around every call into the code under test.
use crate::gram::{Gram, Sym};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug)]
pub struct Viol {
    pub what: String,
    pub fields: Vec<(String, String)>,
}

impl Viol {
    pub fn new(what: impl Into<String>) -> Viol {
        Viol {
            what: what.into(),
            fields: vec![],
        }
    }
    pub fn with(mut self, k: &str, v: impl Into<String>) -> Viol {
        if !self.fields.iter().any(|(a, _)| a == k) {
            self.fields.push((k.into(), v.into()));
        }
        self
    }
}

pub type Check = Result<(), Viol>;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        crate::store_panic(&text);
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub replay: bool,
    pub family: String,
    pub grammars: u64,
    pub skipped: u64,
    pub evals: u64,   // executions of the real code that were compared with the oracle
    pub states: u64,  // distinct configurations (see DESIGN.md per property)
    pub steps: u64,   // transitions taken by the reference model / explorer
    pub nontrivial: u64,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    sampled: (String, u32),
    pub known: BTreeMap<String, (u64, String)>,
    cell: *mut u64,
}

unsafe impl Send for Ctx {}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, cell: *mut u64) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            replay: false,
            family: String::new(),
            grammars: 0,
            skipped: 0,
            evals: 0,
            states: 0,
            steps: 0,
            nontrivial: 0,
            counts: BTreeMap::new(),
            samples: vec![],
            sampled: (String::new(), 0),
            known: BTreeMap::new(),
            cell,
        }
    }

    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.into(), n);
        }
    }

    pub fn cell(&mut self, i: usize, v: u64) {
        if !self.cell.is_null() {
            unsafe { self.cell.add(i).write_volatile(v) }
        }
    }
    pub fn cell_get(&self, i: usize) -> u64 {
        if self.cell.is_null() {
            0
        } else {
            unsafe { self.cell.add(i).read_volatile() }
        }
    }

    /// Leave the current case where the supervisor finds it if this process dies.
    pub fn note_case(&mut self, family: &str, g: &Gram) {
        if self.cell.is_null() {
            return;
        }
        let t = format!("family\t{}\ngrammar\t{}\n", family, g.text());
        let n = t.len().min((crate::NOTE_WORDS / 2 - crate::NOTE_AT) * 8);
        unsafe {
            let at = self.cell.add(crate::NOTE_AT) as *mut u8;
            std::ptr::copy_nonoverlapping(t.as_ptr(), at, n);
        }
        self.cell(8, n as u64);
        self.cell(4, u64::MAX);
    }
    pub fn note_input(&mut self, w: &[Sym]) {
        if self.cell.is_null() {
            return;
        }
        if w.len() < 4000 {
            unsafe {
                let at = self.cell.add(crate::NOTE_WORDS / 2) as *mut Sym;
                std::ptr::copy_nonoverlapping(w.as_ptr(), at, w.len());
            }
            self.cell(4, w.len() as u64);
        } else {
            self.cell(4, u64::MAX);
        }
    }

    /// Run code of the crate under test; a panic becomes Err(message).
    pub fn real<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        let t = self.cell_get(1);
        self.cell(1, t.wrapping_add(1));
        self.cell(3, 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.cell(3, 0);
        r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // the first two of each family
        if self.sampled.0 != self.family {
            self.sampled = (self.family.clone(), 0);
        }
        if self.sampled.1 < 2 && self.samples.len() < 200 {
            self.sampled.1 += 1;
            let s = format!("[{}] {}", self.family, f());
            self.samples.push(s);
        }
    }

    pub fn known(&mut self, id: &str, f: impl FnOnce() -> String) {
        if let Some(e) = self.known.get_mut(id) {
            e.0 += 1;
        } else {
            self.known.insert(id.into(), (1, f()));
        }
    }
}
