//! C22: the command-line tool's exit status tells whether the script parses.
use hx::fam;
use hx::gram::*;
use hx::real;
use hx::refread;
use hx::run::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn exe() -> String {
    verif_dir() + "/target/cli/release/henriks-parsing-project"
}
fn scratch() -> PathBuf {
    use std::cell::RefCell;
    thread_local!(static D: RefCell<Option<PathBuf>> = const { RefCell::new(None) });
    D.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let t = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), "");
                let p = PathBuf::from(format!("{}/target/run/c22/{}-{}", verif_dir(), std::process::id(), t));
                std::fs::create_dir_all(&p).unwrap();
                p
            })
            .clone()
    })
}
/// Runs the program in the scratch directory; gives what it ended with.
fn run(args: &[&str]) -> Result<bool, String> {
    run_with(args, None)
}
fn run_with(args: &[&str], input: Option<&str>) -> Result<bool, String> {
    let dir = scratch();
    let mut c = Command::new(exe())
        .args(args)
        .current_dir(&dir)
        .stdin(input.map_or(Stdio::null(), |f| std::fs::File::open(dir.join(f)).unwrap().into()))
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .map_err(|e| format!("cannot run the program: {e}"))
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Ok(s.success());
        }
        if t0.elapsed() > Duration::from_secs(20) {
            let _ = c.kill();
            let _ = c.wait();
            return Err("the program did not end within 20 s".into());
        }
        std::thread::sleep(Duration::from_micros(if t0.elapsed() < Duration::from_millis(20) { 100 } else { 2000 }));
    }
}
fn put(name: &str, data: &[u8]) {
    std::fs::write(scratch().join(name), data).unwrap();
}
fn judge(rules: &str, script: &str, want: bool, st: &mut Stat) -> Result<(), String> {
    put("r.txt", rules.as_bytes());
    put("s.txt", script.as_bytes());
    st.states += 1;
    st.traces += 1;
    st.transitions += script.chars().count() as u64;
    st.count(if want { "exit 0" } else { "exit not 0" });
    match run(&["r.txt", "s.txt"]) {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!(
            "the program {} although {}\nrule file:\n{rules}\nscript file: {script:?}",
            if g { "exits with status 0" } else { "fails" },
            if want { "the script is a sentence of the grammar" } else { "the grammar is refused or the script is no sentence of it" }
        )),
        Err(e) => Err(format!("{e}\nrule file:\n{rules}\nscript file: {script:?}")),
    }
}

const REFUSED: &[&str] = &[
    "", "\n", "start", "start ->", "start -> ;", "start -> \"a\"", "start -> \"a;", "start -> b;", "a -> \"a\";", "start -> \"a\" | \"a\";", "start -> start \"a\" | \"a\";",
    "start -> \"a\" | ;", "start -> \"a\" #;", "start -> \"a\"; x", "start -> \"a\" {", "start - \"a\";", "start -> x \"a\"; x -> \"a\" | #;", "start -> a; a -> b; b -> a;", "-> \"a\";",
    "start -> \"a\"; start -> \"a\";", "$[foo]start -> \"a\";", "start -> \"a\" \"b\" | \"ac\";", "START -> \"a\";", "start -> \"a\" };",
];
const FILES: &[(&str, Option<&[u8]>)] = &[
    ("good-rules", Some(b"start -> \"a\";")),
    ("nullable-rules", Some(b"start -> \"a\" | #;")),
    ("good-script", Some(b"a")),
    ("empty", Some(b"")),
    ("latin1", Some(b"start -> \"\xe9\";")),
    ("nul", Some(b"a\0")),
    ("dir", None),
];

fn main() {
    // scratch directories of runs that are over
    for d in std::fs::read_dir(verif_dir() + "/target/run/c22").into_iter().flatten().flatten() {
        let pid = d.file_name().to_string_lossy().split('-').next().unwrap_or("").to_string();
        if !pid.is_empty() && !PathBuf::from(format!("/proc/{pid}")).exists() {
            let _ = std::fs::remove_dir_all(d.path());
        }
    }
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        // enumerated grammars
        let mut fams = vec![fam::odd(), fam::names(), fam::chain(4), fam::ring(6), fam::one(Tier::Quick, 3), fam::two_small(4), fam::three_small(4)];
        if !q {
            fams.extend([fam::two(3), fam::words(Tier::Quick, 3), fam::three(Tier::Quick, 3)]);
        }
        for f in fams.drain(..) {
            let mk = f.make.clone();
            let b = format!("{}; each with the last {} of its sentences, cut sentences and other scripts up to length 4", f.bound.split("; scripts").next().unwrap(), if q { 2 } else { 3 });
            families.push(family(f.name, &b, f.n, move |i, st| {
                let g = mk(i);
                let an = analyse(&g);
                let text = g.render();
                st.sample(|| text.replace('\n', " "));
                if !an.ll1() {
                    // refused, whatever the script
                    judge(&text, "", false, st)?;
                    return judge(&text, &g.ts[0].replace("\\\"", "\""), false, st);
                }
                let ps = probes(&g, &an, &fam::sigma(&g), 4, 400, false);
                for kind in 0..3 {
                    let mut left = if q { 2 } else { 3 };
                    for p in ps.iter().rev() {
                        let k = if p.accept { 0 } else if p.viable == p.s.len() { 1 } else { 2 };
                        if k == kind && left > 0 {
                            left -= 1;
                            judge(&text, &p.s.iter().collect::<String>(), p.accept, st)?;
                        }
                    }
                }
                Ok(())
            }));
        }
        // realistic grammars
        let rs = real::real();
        let mut jobs = vec![];
        for (k, r) in rs.iter().enumerate() {
            for j in 0..r.sentences.len() {
                jobs.push((k, j));
            }
        }
        families.push(family("realistic", "realistic grammars: their sentences and, all scripts at edit distance one from them (quick: insertions and substitutions of 4 characters)", jobs.len() as u64, move |i, st| {
            let (k, j) = jobs[i as usize];
            let r = &real::real()[k];
            let (g, an) = real::with_gram(r);
            let s: Vec<char> = r.sentences[j].chars().collect();
            judge(&r.text, &r.sentences[j], Chart::new(&g, &an, &s).accepts(), st)?;
            judge(&r.text, &(r.sentences[j].clone() + "\n"), Chart::new(&g, &an, &[s.clone(), vec!['\n']].concat()).accepts(), st)?;
            let mut sigma = fam::sigma(&g);
            if q {
                sigma.truncate(4);
            }
            for e in real::edits(&s, &sigma) {
                judge(&r.text, &e.iter().collect::<String>(), Chart::new(&g, &an, &e).accepts(), st)?;
            }
            Ok(())
        }));
        families.push(family("refused", &format!("{} rule texts that are malformed or not LL(1), each with 3 scripts", REFUSED.len()), REFUSED.len() as u64, |i, st| {
            let t = REFUSED[i as usize];
            let cs: Vec<char> = t.chars().collect();
            if refread::read(&cs).is_ok() {
                let r = refread::read(&cs).unwrap();
                let ok = r.merged().iter().any(|r| r.name == "start") && analyse(&refread::gram_of(t)).ll1();
                assert!(!ok, "{t:?} is meant to be refused");
            }
            for s in ["", "a", "aa"] {
                judge(t, s, false, st)?;
            }
            Ok(())
        }));
        // what stands before and behind
        const AROUND: &[&str] = &["", "\u{feff}", "\n", "\r\n", " ", "\t", "\u{0}", "#", "\u{1a}", "\u{a0}", "\u{200b}", "\u{2028}", "//", "#!x\n", "\"", "'", "a", "z", "\\"];
        const PLAIN: &[&str] = &["start -> \"a\" start | #;", "start -> \"a\";", "start -> \" \" start | \"\n\" start | \"a\" start | #;", "start -> \"\u{feff}\" x | \"a\"; x -> \"a\";", "start -> \"\r\n\" start | \"a\" b; b -> \"\t\" | #;"];
        let k = AROUND.len() as u64;
        families.push(family(
            "around",
            &format!("{} grammars: all scripts made of a, aa or nothing between two of {k} prefixes and suffixes (byte order mark, line ends, blanks, control characters); the rule file between them, too", PLAIN.len()),
            PLAIN.len() as u64 * k * k,
            move |i, st| {
                let r = PLAIN[(i / k / k) as usize];
                let (a, b) = (AROUND[(i % k) as usize], AROUND[(i / k % k) as usize]);
                let g = refread::gram_of(r);
                let an = analyse(&g);
                for mid in ["a", "aa", ""] {
                    let s = format!("{a}{mid}{b}");
                    judge(r, &s, machine(&g, &an, &s.chars().collect::<Vec<_>>()).error.is_none(), st)?;
                }
                let t = format!("{a}{r}{b}");
                let want = match refread::read(&t.chars().collect::<Vec<_>>()) {
                    Err(_) => false,
                    Ok(f) => {
                        let ok = f.merged().iter().any(|r| r.name == "start");
                        let (g, an) = { let g = refread::to_gram(&f.woven()); let an = analyse(&g); (g, an) };
                        ok && an.ll1() && machine(&g, &an, &['a']).error.is_none()
                    }
                };
                judge(&t, "a", want, st)
            },
        ));
        // size of the files
        let sz: Vec<usize> = [1, 2, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 100_000, 1 << 20, (1 << 20) + 1, (1 << 22) + 1, (1 << 24) + 1].into_iter().filter(|n| !q || *n <= 70_000 || *n % 2 == 1).collect();
        families.push(family(
            "large",
            "script and rule files of 1 to 65537 and of 2^20+1, 2^22+1, 2^24+1 (thorough more) characters of one to three bytes: a long word and lists of up to 1000 entries, one character changed, missing or added at either end and in the middle",
            sz.len() as u64 * 4,
            move |i, st| {
                let n = sz[i as usize / 4];
                let c = ['a', 'é', '日', 'b'][i as usize % 4];
                let (rules, s): (String, Vec<char>) = if i % 4 == 3 {
                    let n = n.min(1000);
                    ("start -> \"b\" start | #;".into(), vec!['b'; n])
                } else {
                    let w = c.to_string().repeat(n);
                    (format!("start -> \"{w}\"; "), vec![c; n])
                };
                let list = i % 4 == 3;
                let put = |v: &[char]| v.iter().collect::<String>();
                let n = s.len();
                judge(&rules, &put(&s), true, st)?;
                judge(&rules, &put(&s[..n - 1]), list, st)?;
                judge(&rules, &put(&[s.clone(), vec![c]].concat()), list, st)?;
                for p in [0, n / 2, n - 1] {
                    let mut t = s.clone();
                    t[p] = 'x';
                    judge(&rules, &put(&t), false, st)?;
                }
                Ok(())
            },
        ));
        // arguments
        let mut argv: Vec<Vec<String>> = vec![vec![]];
        let mut names: Vec<String> = FILES.iter().map(|f| f.0.to_string()).collect();
        names.push("missing".into());
        names.push("".into());
        names.push("missing-dir/file".into());
        for a in &names {
            argv.push(vec![a.clone()]);
            for b in &names {
                argv.push(vec![a.clone(), b.clone()]);
            }
        }
        families.push(family("arguments", &format!("no, one and two arguments out of good, empty, missing, non-UTF-8, binary files, a directory and unusable names: {}", argv.len()), argv.len() as u64, move |i, st| {
            for (n, d) in FILES {
                match d {
                    Some(d) => put(n, d),
                    None => {
                        let _ = std::fs::create_dir(scratch().join(n));
                    }
                }
            }
            let a: Vec<&str> = argv[i as usize].iter().map(|s| s.as_str()).collect();
            let want = [["good-rules", "good-script"], ["nullable-rules", "good-script"], ["nullable-rules", "empty"]].iter().any(|w| a == w);
            st.states += 1;
            st.traces += 1;
            st.sample(|| format!("arguments {a:?}"));
            match run(&a) {
                Ok(g) if g == want => Ok(()),
                Ok(g) => Err(format!("with arguments {a:?} the program {}", if g { "exits with status 0" } else { "fails" })),
                Err(e) => Err(format!("with arguments {a:?}: {e}")),
            }
        }));
        // files that are no text
        const BYTES: &[&[u8]] = &[b"a", b"\xff", b"\x80", b"\xc3", b"\xa9", b"\xe2\x82", b"\xac", b"\xed\xa0\x80", b"\xc0\x80", b"\xf0\x9f", b"\xf4\x90\x80\x80", b"\xef\xbf\xbd", b"\xef\xbb\xbf", b"\xfe", b"\0"];
        let k = BYTES.len() as u64 + 1;
        families.push(family(
            "bytes",
            &format!("all scripts, and all terminals of a rule file, of up to three of {} byte strings (whole characters, parts of characters, bytes that are never text); the other file takes the replacement character, every character of one byte and nothing", k - 1),
            k * k * k,
            move |i, st| {
                let mut b: Vec<u8> = vec![];
                for j in [i / k / k, i / k % k, i % k] {
                    b.extend(BYTES.get(j as usize).copied().unwrap_or(b""));
                }
                st.states += 1;
                // a grammar for which all readings of such a script are sentences, unless it is no text
                let read = std::str::from_utf8(&b);
                let text = read.is_ok();
                let mut all: Vec<char> = (0..=255u8).map(char::from).filter(|c| *c != '"' && *c != '\\').chain(['\u{fffd}', '\u{feff}', '\u{20ac}', '\u{d7ff}', '\u{ffff}']).collect();
                all.extend(read.unwrap_or("").chars());
                all.sort();
                all.dedup();
                put("r.txt", format!("start -> c start | #; c -> {};", all.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join("|")).as_bytes());
                put("s.txt", &b);
                st.traces += 2;
                let got = run(&["r.txt", "s.txt"])?;
                if got != text {
                    return Err(format!("the script is the bytes {b:02x?}, {}, and the program {}", if text { "a sentence" } else { "no text" }, if got { "exits with status 0" } else { "fails" }));
                }
                put("r.txt", &[b"start -> \"", &b[..], b"\" | c; c -> \"z\";"].concat());
                put("s.txt", b"z");
                let got = run(&["r.txt", "s.txt"])?;
                if got != text {
                    return Err(format!("the rule file has the bytes {b:02x?} in a terminal, {}, and the program {}", if text { "which makes it good" } else { "which are no text" }, if got { "exits with status 0" } else { "fails" }));
                }
                Ok(())
            },
        ));
        // paths that look like something else
        const PATHS: &[&str] = &["-", "--", "--help", "-h", "-V", "--version", "~", "@s", "*", "?", "a b", " ", "\n", "é", "日", "$HOME", "s.txt.gz", "./x", "../none", "x=1", "%41", "file:x", "con", "\"x\"", "'", ";", "r.txt ", "a\\b", "."];
        families.push(family(
            "paths",
            &format!("{} unusual paths for the rule file, for the script and for both, with and without such a file (and with files of every kind on the standard input)", PATHS.len()),
            PATHS.len() as u64 * 3 * 2 * 3,
            |i, st| {
                let (path, i) = (PATHS[(i / 18) as usize], i % 18);
                let (which, there, input) = (i % 3, i / 3 % 2 == 1, i / 6);
                let there = there && !path.contains('/') && path != ".";
                let file = scratch().join(path);
                st.states += 1;
                for (s, good) in [("a", true), ("", true), ("b", false)] {
                    let rules = "start -> \"a\" | # | s; s -> \"start -> \\\"a\\\" | # | s;\";";
                    put("r.txt", rules.as_bytes());
                    put("s.txt", s.as_bytes());
                    put("in.txt", [s, rules, "a"][input as usize].as_bytes());
                    if there {
                        std::fs::write(&file, if which == 0 { rules } else { s }).unwrap();
                    }
                    let args = [[path, "s.txt"], ["r.txt", path], [path, path]][which as usize];
                    st.traces += 1;
                    let got = run_with(&args, Some("in.txt"));
                    if there {
                        std::fs::remove_file(&file).unwrap();
                    }
                    let want = there && good && which < 2;
                    match got {
                        Ok(g) if g == want => {}
                        Ok(g) => return Err(format!("with arguments {args:?}{} the program {}", if there { "" } else { " and no such file" }, if g { "exits with status 0" } else { "fails" })),
                        Err(e) => return Err(format!("with arguments {args:?}: {e}")),
                    }
                }
                Ok(())
            },
        ));
        let sp: Vec<Option<char>> = [None].into_iter().chain(hx::uni::SPECIAL.iter().map(|c| Some(*c))).collect();
        let k = sp.len() as u64;
        families.push(family("special-pairs", &format!("all scripts of an a between two of {} special characters, or none", k - 1), k * k, move |i, st| {
            let s: String = sp[(i / k) as usize].into_iter().chain(['a']).chain(sp[(i % k) as usize]).collect();
            judge("start -> \"a\" start | #;", &s, s.chars().all(|c| c == 'a'), st)
        }));
        Check {
            id: "C22",
            technique: "exhaustive exploration of rule file x script file pairs and argument lists on the real program against a chart oracle",
            assumptions: vec!["scripts nested deeper than the program's stack and more than two arguments are left out".into()],
            families,
        }
    })
}
