//! Plain description of a grammar (what the harness feeds to the real code and to the
//! reference model) and its textual form, used in replay files.

pub type Sym = u16;
pub const EPS: Sym = 0;
pub const END: Sym = 1;
pub const TA: Sym = 2; // 'a'
pub const TB: Sym = 3;
pub const TC: Sym = 4;
pub const TZ: Sym = 27; // 'z': used as a token type foreign to the grammars
pub const NS: Sym = 500;
pub const NA: Sym = 501;
pub const NB: Sym = 502;
pub const NC: Sym = 503;
pub const ND: Sym = 504;
pub const MAXSYM: usize = 1024;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Gram {
    pub eps: Sym,
    pub start: Sym,
    pub prods: Vec<(Sym, Vec<Sym>)>,
}

pub fn name(s: Sym) -> String {
    match s {
        0 => "_".into(),
        1 => "$".into(),
        2..=27 => ((b'a' + (s - 2) as u8) as char).to_string(),
        500 => "S".into(),
        501..=518 => ((b'A' + (s - 501) as u8) as char).to_string(),
        s if s >= 500 => format!("N{}", s),
        s => format!("t{}", s),
    }
}

pub fn unname(t: &str) -> Sym {
    let b = t.as_bytes();
    match t {
        "_" => 0,
        "$" => 1,
        "S" => 500,
        _ if b.len() == 1 && b[0].is_ascii_lowercase() => 2 + (b[0] - b'a') as u16,
        _ if b.len() == 1 && b[0].is_ascii_uppercase() => 501 + (b[0] - b'A') as u16,
        _ => t[1..].parse().expect("symbol name"),
    }
}

pub fn show(w: &[Sym]) -> String {
    w.iter().map(|s| name(*s)).collect::<Vec<_>>().join(" ")
}

pub fn unshow(t: &str) -> Vec<Sym> {
    t.split_whitespace().map(unname).collect()
}

impl Gram {
    pub fn text(&self) -> String {
        let ps: Vec<String> = self
            .prods
            .iter()
            .map(|(l, r)| format!("{} -> {}", name(*l), show(r)))
            .collect();
        format!(
            "epsilon {} start {} : {}",
            name(self.eps),
            name(self.start),
            ps.join(" ; ")
        )
    }

    pub fn parse(t: &str) -> Gram {
        let (head, body) = t.split_once(':').expect("grammar text");
        let h: Vec<&str> = head.split_whitespace().collect();
        let prods = body
            .split(';')
            .filter(|x| !x.trim().is_empty())
            .map(|x| {
                let (l, r) = x.split_once("->").expect("production");
                (unname(l.trim()), unshow(r))
            })
            .collect();
        Gram {
            eps: unname(h[1]),
            start: unname(h[3]),
            prods,
        }
    }

    pub fn fingerprint(&self) -> u64 {
        // FNV-1a over an unambiguous encoding, with a final mix
        let mut h: u64 = 0xcbf29ce484222325;
        let mut put = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x100000001b3);
        };
        put(self.eps as u64 + 7);
        put(self.start as u64 + 11);
        for (l, r) in &self.prods {
            put(*l as u64 + 3);
            put(r.len() as u64 + 100000);
            for s in r {
                put(*s as u64 + 5);
            }
        }
        let mut z = h.wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

/// Fixed-size symbol set.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bs([u64; MAXSYM / 64]);

impl Bs {
    pub const fn new() -> Bs {
        Bs([0; MAXSYM / 64])
    }
    pub fn has(&self, s: Sym) -> bool {
        self.0[s as usize / 64] >> (s as usize % 64) & 1 == 1
    }
    pub fn put(&mut self, s: Sym) {
        self.0[s as usize / 64] |= 1 << (s as usize % 64);
    }
    pub fn del(&mut self, s: Sym) {
        self.0[s as usize / 64] &= !(1 << (s as usize % 64));
    }
    pub fn or(&mut self, o: &Bs) {
        for i in 0..self.0.len() {
            self.0[i] |= o.0[i];
        }
    }
    pub fn meets(&self, o: &Bs) -> bool {
        (0..self.0.len()).any(|i| self.0[i] & o.0[i] != 0)
    }
    pub fn list(&self) -> Vec<Sym> {
        (0..MAXSYM as u16).filter(|s| self.has(*s)).collect()
    }
}
