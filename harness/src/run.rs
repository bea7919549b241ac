//! The exploration runner: enumerates families of cases exhaustively, in parallel, under
//! supervision, and turns the outcome into evidence, replay files and the exit status.
//!
//! A check is a list of families; a family is a finite, indexed space of cases and a function that
//! decides one case. The parent process starts a child that enumerates; if the child is killed by
//! a signal (stack overflow, abort, out of memory) the parent reruns the cases that were under way,
//! each alone, to find the one that kills the code under test.
use std::cell::RefCell;
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one worker counted.
#[derive(Default, Clone)]
pub struct Stat {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    /// named counters, e.g. distinct outcomes
    pub counts: std::collections::BTreeMap<String, u64>,
    /// cases per family that were out of the property's scope
    pub skipped: u64,
}
impl Stat {
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn count(&mut self, k: &str) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += 1;
        } else {
            self.counts.insert(k.to_string(), 1);
        }
    }
    pub fn note(&mut self, s: String) {
        if self.notes.len() < 20 {
            self.notes.push(s)
        }
    }
    fn merge(&mut self, o: Stat) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.skipped += o.skipped;
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
        for n in o.notes {
            self.note(n)
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
    }
}

pub type CaseFn = Box<dyn Fn(u64, &mut Stat) -> Result<(), String> + Sync + Send>;

pub struct Family {
    pub name: String,
    pub bound: String,
    pub n: u64,
    pub f: CaseFn,
}

pub fn family(
    name: &str,
    bound: &str,
    n: u64,
    f: impl Fn(u64, &mut Stat) -> Result<(), String> + Sync + Send + 'static,
) -> Family {
    Family { name: name.into(), bound: bound.into(), n, f: Box::new(f) }
}

pub struct Check {
    pub id: &'static str,
    pub technique: &'static str,
    pub assumptions: Vec<String>,
    pub families: Vec<Family>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<Panic>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub msg: String,
    pub file: String,
    pub line: u32,
}
impl Panic {
    /// A panic raised by the harness itself is an error of the check, not a verdict.
    pub fn in_harness(&self) -> bool {
        self.file.starts_with("src/") || self.file.contains("/harness/src/")
    }
}
impl std::fmt::Display for Panic {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "panic at {}:{}: {}", self.file, self.line, self.msg)
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) =
            info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or(("?".into(), 0));
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(Panic { msg, file, line }));
    }));
}

/// Runs code under test; a panic of the code under test is returned, one of the harness goes on.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
    beat();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(Panic {
                msg: "?".into(),
                file: "?".into(),
                line: 0,
            });
            if p.in_harness() {
                LAST_PANIC.with(|q| *q.borrow_mut() = Some(p));
                std::panic::resume_unwind(e);
            }
            Err(p)
        }
    }
}

// ---------------------------------------------------------------- child

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
thread_local! {
    static CASE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static SLOT: std::cell::Cell<Option<&'static [AtomicU64; 3]>> = const { std::cell::Cell::new(None) };
}
/// Called between the executions a case is made of: the time limit is for one of them, up to four
/// times that for a case as a whole (the explorer of C14 resets that, too).
fn beat() {
    if let (Some(s), Some(t)) = (SLOT.with(|s| s.get()), START.get()) {
        let now = t.elapsed().as_millis() as u64;
        if now < CASE.with(|c| c.get()) + 4000 * case_limit() {
            s[2].store(now, Relaxed);
        }
    }
}
pub fn beat_all() {
    if let Some(t) = START.get() {
        CASE.with(|c| c.set(t.elapsed().as_millis() as u64));
    }
    beat();
}

fn threads() -> usize {
    std::env::var("HX_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}
const STACK: usize = 64 << 20;
fn case_limit() -> u64 {
    static L: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *L.get_or_init(|| std::env::var("HX_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60))
}

struct Found {
    fam: String,
    idx: u64,
    text: String,
}

enum CaseEnd {
    Ok,
    Violation(String),
    Engine(String),
}

fn run_case(f: &Family, i: u64, st: &mut Stat) -> CaseEnd {
    match catch_unwind(AssertUnwindSafe(|| (f.f)(i, st))) {
        Ok(Ok(())) => CaseEnd::Ok,
        Ok(Err(t)) => CaseEnd::Violation(t),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take());
            match p {
                Some(p) if !p.in_harness() => {
                    CaseEnd::Violation(format!("the code under test panicked: {p}"))
                }
                Some(p) => CaseEnd::Engine(format!("{p}")),
                None => CaseEnd::Engine("unknown panic".into()),
            }
        }
    }
}

fn status_path(id: &str) -> String {
    format!("{}/status-{}-{}", out_dir(), id, std::process::id())
}
fn out_dir() -> String {
    let d = verif_dir() + "/target/run";
    let _ = fs::create_dir_all(&d);
    d
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// Result protocol in the file `<status>.out`, one item per line, tab separated, text escaped; the
/// child's stdout belongs to the code under test and is discarded.
fn child(check: Check, status: &str, only: Option<(String, u64)>) -> ! {
    install_hook();
    let nthreads = if only.is_some() { 1 } else { threads() };
    let file = fs::OpenOptions::new().create(true).write(true).truncate(true).open(status).unwrap();
    let start = *START.get_or_init(Instant::now);
    // per worker: family+1, index, ms since start
    let slots: &'static [[AtomicU64; 3]] = Box::leak((0..nthreads).map(|_| Default::default()).collect::<Vec<_>>().into_boxed_slice());
    let total = Mutex::new(Stat::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let engine: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let fams = &check.families;
    let mut per_family = String::new();
    std::thread::scope(|sc| {
        sc.spawn(|| {
            // watchdog
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = start.elapsed().as_millis() as u64;
                for s in slots {
                    let f = s[0].load(Relaxed);
                    if f != 0 && now.saturating_sub(s[2].load(Relaxed)) > case_limit() * 1000 {
                        let i = s[1].load(Relaxed);
                        if s[0].load(Relaxed) == f && s[1].load(Relaxed) == i {
                            let line = format!(
                                "V\t{}\t{}\t{}\n",
                                fams[f as usize - 1].name,
                                i,
                                esc(&format!("did not come to an end within {} s", case_limit()))
                            );
                            fs::write(format!("{status}.out"), line).unwrap();
                            unsafe { _exit(0) }
                        }
                    }
                }
            }
        });
        for (fi, fam) in fams.iter().enumerate() {
            if let Some((n, _)) = &only {
                if *n != fam.name {
                    continue;
                }
            }
            let t0 = Instant::now();
            let next = AtomicU64::new(0);
            let fam_stat = Mutex::new(Stat::default());
            let chunk = (fam.n / (nthreads as u64 * 64)).clamp(1, 256);
            std::thread::scope(|inner| {
                let mut hs = vec![];
                for w in 0..nthreads {
                    let (slots, next, fam_stat, found, engine, stop, file, only) =
                        (slots, &next, &fam_stat, &found, &engine, &stop, &file, &only);
                    hs.push(
                        std::thread::Builder::new()
                            .stack_size(STACK)
                            .spawn_scoped(inner, move || {
                                let mut st = Stat::default();
                                SLOT.with(|s| s.set(Some(&slots[w])));
                                let one = |i: u64, st: &mut Stat| {
                                    slots[w][1].store(i, Relaxed);
                                    let now = start.elapsed().as_millis() as u64;
                                    slots[w][2].store(now, Relaxed);
                                    CASE.with(|c| c.set(now));
                                    slots[w][0].store(fi as u64 + 1, Relaxed);
                                    let mut b = [0u8; 16];
                                    b[..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                                    b[8..].copy_from_slice(&i.to_le_bytes());
                                    let _ = file.write_all_at(&b, w as u64 * 16);
                                    let r = run_case(fam, i, st);
                                    slots[w][0].store(0, Relaxed);
                                    match r {
                                        CaseEnd::Ok => {}
                                        CaseEnd::Violation(text) => {
                                            found.lock().unwrap().push(Found {
                                                fam: fam.name.clone(),
                                                idx: i,
                                                text,
                                            });
                                        }
                                        CaseEnd::Engine(t) => {
                                            engine.lock().unwrap().push(format!("{}:{} {}", fam.name, i, t));
                                            stop.store(true, Relaxed);
                                        }
                                    }
                                };
                                if let Some((_, i)) = only {
                                    one(*i, &mut st);
                                } else {
                                    'o: loop {
                                        let a = next.fetch_add(chunk, Relaxed);
                                        if a >= fam.n {
                                            break;
                                        }
                                        for i in a..(a + chunk).min(fam.n) {
                                            if stop.load(Relaxed) {
                                                break 'o;
                                            }
                                            one(i, &mut st);
                                            if found.lock().unwrap().len() >= 200 {
                                                stop.store(true, Relaxed);
                                            }
                                        }
                                    }
                                }
                                fam_stat.lock().unwrap().merge(st);
                            })
                            .unwrap(),
                    );
                }
                for h in hs {
                    let _ = h.join();
                }
            });
            let _ = file.write_all_at(&vec![0u8; nthreads * 16], 0);
            let fs_ = fam_stat.into_inner().unwrap();
            let _ = write!(
                per_family,
                "F\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:.2}\n",
                fam.name,
                esc(&fam.bound),
                fam.n,
                fs_.skipped,
                fs_.states,
                fs_.transitions,
                fs_.traces,
                t0.elapsed().as_secs_f64()
            );
            total.lock().unwrap().merge(fs_);
            if stop.load(Relaxed) {
                break;
            }
        }
        done.store(true, Relaxed);
    });
    let mut out = per_family;
    let mut fnd = found.into_inner().unwrap();
    fnd.sort_by_key(|f| (f.fam.clone(), f.idx));
    for f in fnd {
        let _ = writeln!(out, "V\t{}\t{}\t{}", f.fam, f.idx, esc(&f.text));
    }
    for e in engine.into_inner().unwrap() {
        let _ = writeln!(out, "E\t{}", esc(&e));
    }
    let t = total.into_inner().unwrap();
    let _ = writeln!(out, "T\t{}\t{}\t{}\t{}", t.states, t.transitions, t.traces, t.skipped);
    for s in t.samples {
        let _ = writeln!(out, "S\t{}", esc(&s));
    }
    for s in t.notes {
        let _ = writeln!(out, "N\t{}", esc(&s));
    }
    for (k, v) in t.counts {
        let _ = writeln!(out, "C\t{}\t{}", esc(&k), v);
    }
    let _ = writeln!(out, "D");
    fs::write(format!("{status}.out"), out).unwrap();
    unsafe { _exit(0) }
}

extern "C" {
    fn _exit(c: i32) -> !;
}

// ---------------------------------------------------------------- parent

#[derive(Default)]
struct Outcome {
    violations: Vec<(String, u64, String)>,
    engine: Vec<String>,
    fams: Vec<Vec<String>>,
    totals: [u64; 4],
    samples: Vec<String>,
    notes: Vec<String>,
    counts: Vec<(String, u64)>,
    complete: bool,
    signal: Option<i32>,
    code: Option<i32>,
}

fn spawn_child(status: &str, tier: &str, only: Option<(&str, u64)>) -> Outcome {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("--child").arg(status).arg(tier);
    if let Some((f, i)) = only {
        c.arg(f).arg(i.to_string());
    }
    let res_path = format!("{status}.out");
    let _ = fs::remove_file(&res_path);
    let out = c.stdin(Stdio::null()).stderr(Stdio::piped()).stdout(Stdio::null()).output().unwrap();
    let res = fs::read(&res_path).unwrap_or_default();
    let _ = fs::remove_file(&res_path);
    let mut o = Outcome { signal: out.status.signal(), code: out.status.code(), ..Default::default() };
    for line in String::from_utf8_lossy(&res).lines() {
        let p: Vec<&str> = line.split('\t').collect();
        match p[0] {
            "V" if p.len() == 4 => {
                o.violations.push((p[1].into(), p[2].parse().unwrap_or(0), unesc(p[3])))
            }
            "E" if p.len() == 2 => o.engine.push(unesc(p[1])),
            "F" => o.fams.push(p[1..].iter().map(|s| s.to_string()).collect()),
            "T" => {
                for i in 0..4 {
                    o.totals[i] = p[i + 1].parse().unwrap_or(0)
                }
            }
            "S" => o.samples.push(unesc(p[1])),
            "N" => o.notes.push(unesc(p[1])),
            "C" => o.counts.push((unesc(p[1]), p[2].parse().unwrap_or(0))),
            "D" => o.complete = true,
            _ => {} // the code under test may print
        }
    }
    if !o.complete && o.violations.is_empty() {
        o.notes.push(String::from_utf8_lossy(&out.stderr).chars().take(2000).collect());
    }
    o
}

fn read_status(path: &str) -> Vec<(u64, u64)> {
    let b = fs::read(path).unwrap_or_default();
    b.chunks(16)
        .filter(|c| c.len() == 16)
        .map(|c| {
            (
                u64::from_le_bytes(c[..8].try_into().unwrap()),
                u64::from_le_bytes(c[8..].try_into().unwrap()),
            )
        })
        .filter(|x| x.0 != 0)
        .collect()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Known findings: lines `finding: property=<id> case=<family>:<index> <text>`; a `fixed:` line
/// suppresses nothing.
fn known(id: &str) -> Vec<(String, String)> {
    let mut r = vec![];
    let p = verif_dir() + "/known_findings.txt";
    for l in fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix(&format!("finding: property={id} case=")) {
            let (c, t) = rest.split_once(' ').unwrap_or((rest, ""));
            r.push((c.to_string(), t.to_string()));
        }
    }
    r
}

pub fn main_check(build: impl Fn(Tier) -> Check) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 4 && args[1] == "--child" {
        let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let only = if args.len() >= 6 {
            Some((args[4].clone(), args[5].parse().unwrap()))
        } else {
            None
        };
        child(build(tier), &args[2], only);
    }
    let tier_s = args.get(1).cloned().unwrap_or("quick".into());
    let tier = if tier_s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let check = build(tier);
    let id = check.id;
    if args.get(2).map(|s| s == "--only").unwrap_or(false) {
        let st = status_path(id);
        let o = spawn_child(&st, &tier_s, Some((&args[3], args[4].parse().unwrap())));
        let _ = fs::remove_file(&st);
        for v in &o.violations {
            println!("{}:{}\n{}", v.0, v.1, v.2);
        }
        for e in &o.engine {
            println!("ENGINE {e}");
        }
        println!("signal={:?} code={:?} complete={} notes={:?}", o.signal, o.code, o.complete, o.notes);
        exit(if o.violations.is_empty() && o.complete { 0 } else { 1 });
    }
    let t0 = Instant::now();
    let st = status_path(id);
    let mut o = spawn_child(&st, &tier_s, None);
    if !o.complete && o.violations.is_empty() && o.engine.is_empty() {
        // killed: find the case
        let cands = read_status(&st);
        for (f, i) in &cands {
            let fam = &check.families[*f as usize - 1];
            let r = spawn_child(&st, &tier_s, Some((&fam.name, *i)));
            if !r.violations.is_empty() {
                o.violations.extend(r.violations);
            } else if let (false, Some(s)) = (r.complete, r.signal) {
                o.violations.push((
                    fam.name.clone(),
                    *i,
                    format!(
                        "the process was killed by signal {s} (stack overflow, abort or out of memory) while running this case\n{}",
                        r.notes.join("\n")
                    ),
                ));
            }
        }
        if o.violations.is_empty() {
            o.engine.push(format!(
                "the exploring process ended with signal {:?}, code {:?}, and no single case reproduces it: {:?}",
                o.signal, o.code, o.notes
            ));
        }
    }
    let _ = fs::remove_file(&st);
    let kn = known(id);
    let mut fresh = vec![];
    let mut known_hit = vec![];
    for v in &o.violations {
        let key = format!("{}:{}", v.0, v.1);
        match kn.iter().find(|k| k.0 == key) {
            Some(k) => known_hit.push(k.1.clone()),
            None => fresh.push(v),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let stopped = !o.complete || !o.engine.is_empty() || fresh.len() >= 200;
    // evidence
    let mut j = String::new();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let _ = write!(
        j,
        "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"technique\":{},\"cases_outside_scope\":{},\"families\":[",
        if tier == Tier::Quick { "quick" } else { "thorough" },
        o.totals[0],
        o.totals[1],
        o.totals[2],
        !stopped,
        json_str(check.technique),
        o.totals[3]
    );
    for (k, f) in o.fams.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        let g = |i: usize| f.get(i).cloned().unwrap_or("0".into());
        let _ = write!(
            j,
            "{{\"name\":{},\"bound\":{},\"cases\":{},\"outside_scope\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"wall_s\":{}}}",
            json_str(&g(0)),
            json_str(&unesc(&g(1))),
            g(2),
            g(3),
            g(4),
            g(5),
            g(6),
            g(7)
        );
    }
    j.push_str("],\"outcomes\":{");
    for (k, (n, v)) in o.counts.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        let _ = write!(j, "{}:{}", json_str(n), v);
    }
    j.push_str("},\"samples\":[");
    for (k, s) in o.samples.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        j.push_str(&json_str(s));
    }
    j.push_str("],\"notes\":[");
    for (k, s) in o.notes.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        j.push_str(&json_str(s));
    }
    j.push_str("]},\"assumptions\":[");
    for (k, s) in check.assumptions.iter().enumerate() {
        if k > 0 {
            j.push(',');
        }
        j.push_str(&json_str(s));
    }
    let _ = write!(j, "],\"wall_s\":{wall:.2},\"violations\":{}}}\n", fresh.len());
    let evd = verif_dir() + "/evidence";
    let _ = fs::create_dir_all(&evd);
    fs::write(format!("{evd}/{id}.json"), j).unwrap();
    for t in &known_hit {
        println!("KNOWN-FINDING: property={id} {t}");
    }
    if !fresh.is_empty() {
        let rd = verif_dir() + "/replays";
        let _ = fs::create_dir_all(&rd);
        let path = format!("{rd}/{id}.txt");
        let mut body = String::new();
        let first = fresh.iter().min_by_key(|v| v.2.len()).unwrap();
        let _ = writeln!(
            body,
            "property {id}, tier {tier_s}\nreplay: cd /verif && ./check.sh {id} {tier_s} --only '{}' {}\n\n{}\n",
            first.0, first.1, first.2
        );
        for v in fresh.iter().take(20) {
            let _ = writeln!(body, "---- {}:{}\n{}\n", v.0, v.1, v.2);
        }
        fs::write(&path, &body).unwrap();
        println!("{}", body.chars().take(1500).collect::<String>());
        println!("VIOLATION property={id} replay={path}");
        exit(1);
    }
    if !o.engine.is_empty() {
        for e in &o.engine {
            println!("ENGINE ERROR {e}");
        }
        exit(2);
    }
    println!(
        "{id} {tier_s}: held on everything explored: states={} transitions={} traces={} outside_scope={} wall={wall:.1}s",
        o.totals[0], o.totals[1], o.totals[2], o.totals[3]
    );
    for f in &o.fams {
        println!("  {} [{}] cases={} wall={}s", f[0], unesc(&f[1]), f[2], f[7]);
    }
    exit(0)
}
