//! mc run <property> <quick|thorough>   enumerate everything, write evidence, report
//! mc replay <file>                     run one recorded case again
//! mc self                              cross-check the reference models with each other
//!
//! The enumeration runs in worker processes (the code under test may overflow its stack,
//! exhaust memory or loop), each taking the cases whose fingerprint falls in its shard.
mod checks;
mod ctx;
mod fam;
mod gram;
mod hook;
mod imp;
mod leak;
mod overlap;
mod refm;
mod selfx;
mod solvm;
mod giant;
mod prep;
mod work;

use ctx::*;
use gram::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[global_allocator]
static ALLOC: leak::Counting = leak::Counting;

const STACK: usize = 768 << 20;
const MEM: u64 = 6 << 30;
const HANG_CPU_S: f64 = 20.0;
const IDLE_LOOKS: u64 = 300; // 60 s in one call, almost without processor time: blocked
pub const NOTE_WORDS: usize = 8192; // u64 words of the shared page file
pub const NOTE_AT: usize = 16; // byte text of the current case starts at this word

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, set: *mut [u64; 16]) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, set: *const [u64; 16]) -> i32;
}

/// Keeps this thread and those it starts on one processor: two threads that take turns hand over
/// many times faster that way.  Does nothing if that is not allowed.
fn stay_on(n: u64) {
    let mut set = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, &mut set) < 0 {
            return;
        }
        let all: Vec<usize> = (0..1024).filter(|i| set[i / 64] >> (i % 64) & 1 == 1).collect();
        if let Some(c) = all.get(n as usize % all.len().max(1)) {
            let mut one = [0u64; 16];
            one[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, &one);
        }
    }
}

/// The standard library seeds its hash maps from here: fixed seeds make runs repeatable.
/// (Everything seeded this way is also checked under many other orders, see each_order.)
static RNG: AtomicU64 = AtomicU64::new(1);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let mut z = RNG
            .fetch_add(0x9e3779b97f4a7c15, Ordering::Relaxed)
            .wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        *buf.add(i) = (z >> 32) as u8;
    }
    len as isize
}

fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

fn map_cells(p: &Path) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("cell file");
    f.set_len(NOTE_WORDS as u64 * 8).expect("cell file");
    let m = unsafe { mmap(std::ptr::null_mut(), NOTE_WORDS * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(m as isize != -1, "mmap");
    m as *mut u64
}

fn read_note(p: &Path) -> (u64, BTreeMap<String, String>) {
    // word 3: inside real code; word 8: length of text; words 16..: text; words 4, 5: input
    let b = std::fs::read(p).unwrap_or_default();
    let word = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    let mut m = BTreeMap::new();
    if b.len() < NOTE_WORDS * 8 {
        return (0, m);
    }
    let n = word(8) as usize;
    let text = String::from_utf8_lossy(&b[NOTE_AT * 8..NOTE_AT * 8 + n]).to_string();
    for l in text.lines() {
        if let Some((k, v)) = l.split_once('\t') {
            m.insert(k.into(), v.into());
        }
    }
    let k = word(4) as usize;
    if k != usize::MAX && k < 4000 {
        let at = (NOTE_WORDS / 2) * 8;
        let w: Vec<Sym> = (0..k).map(|i| u16::from_le_bytes([b[at + 2 * i], b[at + 2 * i + 1]])).collect();
        m.insert("input".into(), show(&w));
    }
    (word(3), m)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn line(k: &str, v: &str) {
    let v = v.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
    let so = std::io::stdout();
    let mut so = so.lock();
    let _ = writeln!(so, "{}\t{}", k, v);
    let _ = so.flush();
}
fn unline(v: &str) -> String {
    let mut o = String::new();
    let mut it = v.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn report(ctx: &Ctx) {
    line("grammars", &ctx.grammars.to_string());
    line("skipped", &ctx.skipped.to_string());
    line("evals", &ctx.evals.to_string());
    line("states", &ctx.states.to_string());
    line("steps", &ctx.steps.to_string());
    line("nontrivial", &ctx.nontrivial.to_string());
    for (k, n) in &ctx.counts {
        line("count", &format!("{}={}", k, n));
    }
    for s in &ctx.samples {
        line("sample", s);
    }
    for (k, (n, s)) in &ctx.known {
        line("known", &format!("{}\u{1}{}\u{1}{}", k, n, s));
    }
}

fn report_violation(v: &Viol, family: &str) {
    line("viol", &v.what);
    line("vf", &format!("family\u{1}{}", family));
    for (k, x) in &v.fields {
        let mut x = x.clone();
        if x.len() > 20000 {
            let mut e = 20000;
            while !x.is_char_boundary(e) {
                e -= 1;
            }
            x.truncate(e);
        }
        line("vf", &format!("{}\u{1}{}", k, x));
    }
}

/// Stops the worker when the code under test makes no progress.
fn watchdog(cells: usize) {
    std::thread::spawn(move || {
        let c = cells as *mut u64;
        let mut last = (u64::MAX, cpu());
        let mut idle = 0; // looks at the same call (a stopped process does not look)
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let t = unsafe { c.add(1).read_volatile() };
            let inside = unsafe { c.add(3).read_volatile() };
            let now = cpu();
            if t != last.0 || inside == 0 {
                last = (t, now);
                idle = 0;
            } else if idle > IDLE_LOOKS && now - last.1 < 0.02 * idle as f64 / 5.0 {
                line("hang", "blocked");
                exit(77);
            } else if now - last.1 > HANG_CPU_S {
                line("hang", "1");
                exit(77);
            } else {
                idle += 1;
            }
        }
    });
}

struct Spec {
    prop: String,
    thorough: bool,
    shard: u64,
    of: u64,
    only: Option<String>,
}

fn work(spec: &Spec, cells: usize) {
    let mut ctx = Ctx::new(&spec.prop, spec.thorough, cells as *mut u64);
    if spec.prop == "C17" && spec.shard == 0 {
        ctx.family = "token laws".into();
        if let Err(v) = checks::token_laws(&mut ctx) {
            report_violation(&v, "token laws");
            report(&ctx);
            exit(0);
        }
    }
    for f in fam::families(&spec.prop, spec.thorough) {
        if let Some(o) = &spec.only {
            if !f.name.starts_with(o.as_str()) {
                continue;
            }
        }
        ctx.family = f.name.clone();
        let t0 = Instant::now();
        let (g0, e0) = (ctx.grammars, ctx.evals);
        let mut seen: HashSet<u64> = HashSet::new();
        let filter = f.filter;
        (f.gen)(&mut |g, own| {
            let mut fp = g.fingerprint();
            if let Some(o) = &own {
                // same grammar with other inputs is another case
                for w in o.iter() {
                    fp = fp.rotate_left(5) ^ (w.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
                }
            }
            if (fp >> 20) % spec.of != spec.shard || !seen.insert(fp) {
                return;
            }
            if spec.prop != "C01" {
                if !checks::well_formed(&g) {
                    return;
                }
                if !giant::beyond(&g) && !filter(&refm::Info::new(&g)) {
                    ctx.skipped += 1;
                    return;
                }
            }
            let inputs = own.unwrap_or_else(|| f.inputs.clone());
            ctx.note_case(&f.name, &g);
            let job = checks::Job {
                inputs: &inputs,
                deviations: f.deviations,
                all_positions: f.all_positions,
                depth: f.depth,
                script: None,
            };
            if let Err(v) = checks::run(&mut ctx, &g, &job) {
                report_violation(&v, &f.name);
                report(&ctx);
                exit(0);
            }
        });
        line(
            "fam",
            &format!(
                "{}\u{1}{}\u{1}{}\u{1}{}\u{1}{}",
                f.name,
                f.what,
                ctx.grammars - g0,
                ctx.evals - e0,
                t0.elapsed().as_millis()
            ),
        );
    }
    report(&ctx);
}

fn read_fields(p: &Path) -> BTreeMap<String, String> {
    let t = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", p.display(), e);
        exit(2)
    });
    t.lines()
        .filter_map(|l| l.split_once(": "))
        .map(|(k, v)| (k.to_string(), unline(v)))
        .collect()
}

fn replay_work(file: &Path, cells: usize) {
    let m = read_fields(file);
    let prop = m.get("property").cloned().unwrap_or_default();
    let mut ctx = Ctx::new(&prop, m.get("tier").map_or(false, |t| t == "thorough"), cells as *mut u64);
    ctx.replay = true;
    let family = m.get("family").cloned().unwrap_or_default();
    ctx.family = family.clone();
    let r = match m.get("grammar") {
        None => checks::token_laws(&mut ctx),
        Some(gt) => {
            let g = Gram::parse(gt);
            let f = fam::families(&prop, ctx.thorough).into_iter().find(|f| f.name == family);
            let mut inputs: Vec<Vec<Sym>> = match (m.get("input"), m.get("inputs")) {
                (_, Some(i)) => i.split(" , ").map(unshow).collect(),
                (Some(i), _) => vec![unshow(i)],
                _ => f.as_ref().map_or(vec![], |f| f.inputs.to_vec()),
            };
            if inputs.is_empty() {
                inputs = (*fam::families(&prop, false)[0].inputs).clone();
            }
            let job = checks::Job {
                inputs: &inputs,
                deviations: f.as_ref().map_or(1, |f| f.deviations),
                all_positions: f.as_ref().map_or(false, |f| f.all_positions),
                depth: f.as_ref().map_or(3, |f| f.depth),
                script: m.get("script").map(|s| checks::parse_script(s)),
            };
            ctx.note_case(&family, &g);
            checks::run(&mut ctx, &g, &job)
        }
    };
    if let Err(v) = r {
        report_violation(&v, &family);
    }
    report(&ctx);
}

/// In a worker process: limits, panic hook, big stack.
fn worker_main(args: &[String]) -> ! {
    let cells = map_cells(Path::new(&args[0]));
    unsafe { cells.add(4).write_volatile(u64::MAX) };
    install_hook();
    unsafe {
        setrlimit(9, &[MEM, MEM]); // address space
        setrlimit(4, &[0, 0]); // no core files
    }
    let cells = cells as usize;
    watchdog(cells);
    let args: Vec<String> = args.to_vec();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            if args[1] == "replay" {
                replay_work(Path::new(&args[2]), cells);
            } else {
                let spec = Spec {
                    prop: args[1].clone(),
                    thorough: args[2] == "thorough",
                    shard: args[3].parse().unwrap(),
                    of: args[4].parse().unwrap(),
                    only: args.get(5).cloned(),
                };
                if spec.prop == "C18" {
                    stay_on(spec.shard);
                }
                RNG.fetch_add(spec.shard.wrapping_mul(0x1000003), Ordering::Relaxed);
                work(&spec, cells);
            }
        })
        .expect("worker thread");
    match h.join() {
        Ok(()) => {
            line("done", "1");
            exit(0)
        }
        Err(_) => {
            line("internal", &LAST_PANIC_TEXT.lock().unwrap());
            exit(3)
        }
    }
}

#[derive(Default)]
struct Total {
    nums: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
    fams: Vec<(String, String, u64, u64, u64)>,
    viols: Vec<(String, Vec<(String, String)>)>,
    errors: Vec<String>,
}

fn collect(tot: &mut Total, out: &str, status: std::process::ExitStatus, cell: &Path, err: &str) {
    let mut done = false;
    let mut hang = false;
    let mut blocked = false;
    let mut viol: Option<(String, Vec<(String, String)>)> = None;
    for l in out.lines() {
        let (k, v) = match l.split_once('\t') {
            Some(x) => x,
            None => continue,
        };
        let v = unline(v);
        match k {
            "done" => done = true,
            "hang" => {
                hang = true;
                blocked = v == "blocked";
            }
            "internal" => tot.errors.push(format!("worker panicked: {}", v)),
            "count" => {
                let (a, b) = v.rsplit_once('=').unwrap();
                *tot.counts.entry(a.into()).or_default() += b.parse::<u64>().unwrap();
            }
            "sample" => tot.samples.push(v),
            "known" => {
                let p: Vec<&str> = v.splitn(3, '\u{1}').collect();
                let e = tot.known.entry(p[0].into()).or_insert((0, p[2].to_string()));
                e.0 += p[1].parse::<u64>().unwrap();
            }
            "fam" => {
                let p: Vec<&str> = v.split('\u{1}').collect();
                let (g, e, ms) = (p[2].parse().unwrap(), p[3].parse().unwrap(), p[4].parse().unwrap());
                match tot.fams.iter_mut().find(|f| f.0 == p[0]) {
                    Some(f) => {
                        f.2 += g;
                        f.3 += e;
                        f.4 = f.4.max(ms);
                    }
                    None => tot.fams.push((p[0].into(), p[1].into(), g, e, ms)),
                }
            }
            "viol" => viol = Some((v, vec![])),
            "vf" => {
                if let (Some(x), Some((a, b))) = (viol.as_mut(), v.split_once('\u{1}')) {
                    x.1.push((a.into(), b.into()));
                }
            }
            k => *tot.nums.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0),
        }
    }
    if let Some(v) = viol {
        tot.viols.push(v);
        return;
    }
    if done {
        return;
    }
    let (inside, note) = read_note(cell);
    let fields: Vec<(String, String)> = note.into_iter().collect();
    if hang {
        tot.viols.push((
            if blocked {
                "the call is blocked: it makes no progress and uses no processor time".to_string()
            } else {
                format!("the call did not return within {} s of processor time", HANG_CPU_S)
            },
            fields,
        ));
    } else if let (Some(s), true) = (status.signal(), inside == 1) {
        let what = match s {
            6 | 11 | 7 => "stack or memory exhausted",
            _ => "killed",
        };
        if s == 9 || s == 15 {
            tot.errors.push(format!("a worker was killed (signal {}) at {:?}", s, fields));
        } else {
            tot.viols.push((
                format!(
                    "the process died inside the library (signal {}, {}): {}",
                    s,
                    what,
                    err.trim().lines().last().unwrap_or("")
                ),
                fields,
            ));
        }
    } else if tot.errors.is_empty() {
        tot.errors.push(format!("a worker ended with {} at {:?}: {}", status, fields, err));
    }
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn spawn(argss: Vec<Vec<String>>) -> Total {
    let dir = scratch();
    let exe = std::env::current_exe().expect("own path");
    let hs: Vec<_> = argss
        .into_iter()
        .enumerate()
        .map(|(i, a)| {
            let cell = dir.join(format!("cell{}", i));
            let _ = map_cells(&cell);
            let c = Command::new(&exe)
                .arg("worker")
                .arg(&cell)
                .args(&a)
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .expect("worker");
            std::thread::spawn(move || {
                let o = c.wait_with_output().expect("worker output");
                (o, cell)
            })
        })
        .collect();
    let mut tot = Total::default();
    for h in hs {
        let (o, cell) = h.join().expect("collector");
        collect(
            &mut tot,
            &String::from_utf8_lossy(&o.stdout),
            o.status,
            &cell,
            &String::from_utf8_lossy(&o.stderr),
        );
        let _ = std::fs::remove_file(&cell);
    }
    let _ = std::fs::remove_dir(&dir);
    tot
}

fn known_listed(root: &Path, prop: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> id=<KF..> <what fails>
    std::fs::read_to_string(root.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?.to_string();
            let id = it.next()?.strip_prefix("id=")?.to_string();
            if p == prop {
                Some((id, it.next().unwrap_or("").to_string()))
            } else {
                None
            }
        })
        .collect()
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "every production list of the families is built on the real code; non-trivial: well formed, so every accessor is compared",
        "C02" | "C03" => "every grammar of the families, rebuilt until every visiting order of its non-terminals was seen (up to 4 non-terminals; a fixed number of instances above); non-trivial: some alternative starts with a non-terminal (FIRST) or some follow set is not empty (FOLLOW)",
        "C04" => "every grammar of the families under every visiting order, every table cell, and every one-element change of the supplied sets; non-trivial: some production has two or more lookaheads",
        "C05" => "every (grammar, input) of the families, and again with a solver installed (declining, or fixing by one of five rules, in turn; thorough: all six); non-trivial: accepted, so the tree is checked",
        "C06" | "C07" => "every (grammar, input) of the families within the property's class, without and with a solver; non-trivial: the input is a sentence",
        "C08" => "every (grammar, input), without and with a solver; the reference model explores the ordered choices of each; non-trivial: the model had to retry a sibling",
        "C09" => "every (grammar, input), inputs over all kinds of token types; every one counts",
        "C10" | "C11" => "every (grammar, input), without and with a solver, reports given to the solver included; non-trivial: rejected with a nested report / more than one failing leaf",
        "C12" => "every (grammar, input) with a declining solver and, if it parses, solvers fixing at each position; non-trivial: a solver that would answer, or one that is asked",
        "C13" | "C14" => "every (grammar, input) and every sequence of solver answers with a bounded number of fixes, explored as a tree of the calls made; non-trivial: the solver is asked at least once",
        "C15" => "every sequence of operations (parse i on P, parse i on Q, rebuild P, feed P no tokens) up to the depth, one long history covering all pairs, and the lives of 51 grammars one after the other; non-trivial: the inputs have different outcomes",
        "C23" => "every pattern of a link with one side of length <= 3, or two of length <= 2, over itself, the next two links, a common terminal and one of its own, repeated to chains of growing length with four ends and six ways to use the links; the calls into the caller's code are counted while the parser is made; non-trivial: every one",
        "C20" | "C22" => "every LL(1) grammar of the families, every input that is a sentence and every way of repeating one or two of its parts that gives sentences, at three sizes, complete, truncated and with a wrong token, with and without a solver; non-trivial: pumped words",
        "C21" => "every grammar with all its inputs: whole lives of its objects, ever new and repeated inputs, a panic of the caller's code at every scheduling point of every parse and construction, three times over; live memory compared; all non-trivial",
        "C19" => "every parser made in each way and from every changed set of the listed kinds, with every input; non-trivial: some change alters a prediction",
        "C18" => "every scheduling point (call of the crate into its caller's code) of every parse and construction is suspended at, with another parse or construction run to its end there, and aborted at by a panic; every schedule of two parses in two threads with two (three) preemptions; non-trivial: the inputs have different outcomes",
        "C16" => "every grammar under every visiting order, three symbol types and declaration interleavings, without and with a solver; non-trivial: at least two non-terminals",
        _ => "every (grammar, input) under every assignment of lexemes {none,7,8} for short inputs and fixed patterns for long ones, and once with symbols whose equality ignores part of them; every assignment counts",
    }
}

fn run_prop(prop: &str, tier: &str, only: Option<String>) -> i32 {
    let root = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let jobs = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16);
    let mut argss = vec![];
    for s in 0..jobs {
        let mut a = vec![prop.to_string(), tier.to_string(), s.to_string(), jobs.to_string()];
        a.extend(only.clone());
        argss.push(a);
    }
    let mut tot = spawn(argss);
    let listed = known_listed(&root, prop);
    let mut code = 0;
    let evd = root.join("evidence");
    let _ = std::fs::create_dir_all(evd.join("replays"));
    // violations: the shortest case first
    tot.viols.sort_by_key(|v| v.1.iter().filter(|f| f.0 == "grammar" || f.0 == "input").map(|f| f.1.len()).sum::<usize>());
    for (k, (n, s)) in &tot.known {
        match listed.iter().find(|l| l.0 == *k) {
            Some((_, text)) => println!("KNOWN-FINDING: property={} {} ({} cases this run, first: {})", prop, text, n, s),
            None => tot.viols.push((format!("{} (not a listed finding): {}", k, s), {
                let mut f = vec![];
                if let Some((g, rest)) = s.split_once(" | ") {
                    f.push(("grammar".to_string(), g.to_string()));
                    if let Some((w, _)) = rest.split_once(" : ") {
                        f.push(("input".to_string(), w.to_string()));
                    }
                }
                f
            })),
        }
    }
    for (i, (what, fields)) in tot.viols.iter().take(3).enumerate() {
        let p = evd.join("replays").join(format!("{}-{}.txt", prop, i));
        let mut o = format!("property: {}\ntier: {}\nwhat: {}\n", prop, tier, what.replace('\n', "\\n"));
        for (k, v) in fields {
            o += &format!("{}: {}\n", k, v.replace('\\', "\\\\").replace('\n', "\\n"));
        }
        std::fs::write(&p, o).expect("replay file");
        println!("{}", what);
        for (k, v) in fields {
            let mut v = v.clone();
            if v.len() > 600 {
                v = v.chars().take(600).collect::<String>() + "...";
            }
            println!("    {}: {}", k, v);
        }
        println!("VIOLATION property={} replay={}", prop, p.display());
        code = 1;
    }
    if !tot.errors.is_empty() {
        for e in &tot.errors {
            eprintln!("check error: {}", e);
        }
        if code == 0 {
            code = 2;
        }
    }
    let num = |k: &str| tot.nums.get(k).copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let mut samples: Vec<String> = vec![];
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    tot.samples.sort();
    tot.samples.dedup();
    for s in &tot.samples {
        let f = s.split(']').next().unwrap_or("").to_string();
        let c = per.entry(f).or_default();
        if *c < 2 && samples.len() < 14 {
            *c += 1;
            let mut s = s.clone();
            if s.len() > 700 {
                s = s.chars().take(700).collect::<String>() + "...";
            }
            samples.push(s);
        }
    }
    let mut j = String::from("{\n");
    j += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", esc(prop), esc(tier), seed);
    j += " \"coverage\": {\n";
    j += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", num("states"), num("steps"), num("evals"));
    j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", num("evals"), num("nontrivial"));
    j += &format!("  \"grammars\": {},\n  \"grammars_outside_the_property\": {},\n", num("grammars"), num("skipped"));
    j += &format!("  \"exhaustive\": {},\n", only.is_none() && code == 0);
    j += &format!("  \"rule\": {},\n", esc(rule(prop)));
    j += "  \"families\": [\n";
    let fl: Vec<String> = tot
        .fams
        .iter()
        .map(|f| format!("   {{\"name\": {}, \"bounds\": {}, \"grammars\": {}, \"executions\": {}, \"slowest_worker_ms\": {}}}", esc(&f.0), esc(&f.1), f.2, f.3, f.4))
        .collect();
    j += &fl.join(",\n");
    j += "\n  ],\n  \"counts\": {";
    j += &tot.counts.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect::<Vec<_>>().join(", ");
    j += "},\n  \"known_findings_seen\": {";
    j += &tot.known.iter().map(|(k, n)| format!("{}: {}", esc(k), n.0)).collect::<Vec<_>>().join(", ");
    j += "},\n  \"samples\": [\n";
    j += &samples.iter().map(|s| format!("   {}", esc(s))).collect::<Vec<_>>().join(",\n");
    j += "\n  ]\n },\n";
    j += " \"assumptions\": [\"bounds as listed per family; the reference model in /verif/mc/src is trusted (two independent formulations are cross-checked by 'mc self')\"],\n";
    j += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, tot.viols.len());
    std::fs::write(evd.join(format!("{}.json", prop)), j).expect("evidence file");
    println!(
        "{} {}: {} grammars, {} executions compared, {} states, {} non-trivial, {} violation(s), {:.1} s",
        prop,
        tier,
        num("grammars"),
        num("evals"),
        num("states"),
        num("nontrivial"),
        tot.viols.len(),
        wall
    );
    if code == 0 && (num("evals") == 0 || num("nontrivial") == 0) {
        eprintln!("check error: nothing was explored");
        code = 2;
    }
    code
}

static LAST_PANIC_TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn store_panic(s: &str) {
    if let Ok(mut g) = LAST_PANIC_TEXT.lock() {
        *g = s.to_string();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => worker_main(&args[2..]),
        Some("run") => exit(run_prop(&args[2], args.get(3).map_or("quick", |s| s.as_str()), args.get(4).cloned())),
        Some("replay") => {
            let m = read_fields(Path::new(&args[2]));
            let tot = spawn(vec![vec!["replay".into(), args[2].clone()]]);
            for e in &tot.errors {
                println!("check error: {}", e);
            }
            for (k, (n, s)) in &tot.known {
                println!("known finding {} ({}): {}", k, n, s);
            }
            for (what, fields) in &tot.viols {
                println!("{}", what);
                for (k, v) in fields {
                    println!("    {}: {}", k, v);
                }
                println!("VIOLATION property={} replay={}", m.get("property").map_or("?", |s| s.as_str()), args[2]);
            }
            if tot.viols.is_empty() && tot.errors.is_empty() {
                println!("replay: no violation");
            }
            exit(if !tot.viols.is_empty() { 1 } else if !tot.errors.is_empty() { 2 } else { 0 })
        }
        Some("fresh") => {
            install_hook();
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || println!("{}", checks::fresh_parse(&Gram::parse(&args[2]), &unshow(&args[3]))))
                .expect("thread");
            exit(if h.join().is_ok() { 0 } else { 3 })
        }
        Some("life") => {
            install_hook();
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let w: Vec<Vec<gram::Sym>> = args[3..].iter().map(|x| unshow(x)).collect();
                    println!("{}", checks::life_alone(&Gram::parse(&args[2]), &w))
                })
                .expect("thread");
            exit(if h.join().is_ok() { 0 } else { 3 })
        }
        Some("self") => {
            install_hook();
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(selfx::run)
                .expect("thread");
            exit(match h.join() {
                Ok(true) => 0,
                _ => {
                    println!("self-check failed: {}", LAST_PANIC_TEXT.lock().unwrap());
                    2
                }
            })
        }
        _ => {
            eprintln!("usage: mc run <property> <quick|thorough> [family] | mc replay <file> | mc self");
            exit(2)
        }
    }
}
