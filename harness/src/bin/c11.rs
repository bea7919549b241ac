//! C11: a rule's action text reaches the VM intact and once.
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::{NullVm, VM};
use hx::dump::dump;
use hx::refread;
use hx::run::*;
use std::sync::Mutex;

/// How the VM goes through its section.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Next,
    PeekNext,
    PeekMutNext,
    PeekTwiceNext,
    NextIf,
    NextIfEq,
    /// a refused conditional read before every read
    RefusedThenNext,
    /// peeks once more after every read, also at the end
    NextPeek,
    /// reads only so many characters
    Partial(usize),
    /// reads so many characters, then fails
    Fail(usize),
}
const MODES: [Mode; 8] = [
    Mode::Next, Mode::PeekNext, Mode::PeekMutNext, Mode::PeekTwiceNext, Mode::NextIf, Mode::NextIfEq, Mode::RefusedThenNext, Mode::NextPeek,
];
struct StyleVm {
    mode: Mode,
    log: Mutex<Vec<(String, String, Option<String>)>>,
}
impl VM for StyleVm {
    type Tstate = ();
    type Tinstrution = usize;
    fn parse_instructions<'a, T>(&'a self, name: &str, p: &mut ParseProcess<T>) -> Result<Vec<usize>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut text = String::new();
        let mut odd = None;
        let mut left = match self.mode {
            Mode::Partial(k) | Mode::Fail(k) => k,
            _ => 10_000_000,
        };
        let complete = !matches!(self.mode, Mode::Partial(_) | Mode::Fail(_));
        while left > 0 {
            left -= 1;
            let c = match self.mode {
                Mode::Next | Mode::Partial(_) | Mode::Fail(_) => p.next(),
                Mode::PeekNext | Mode::PeekTwiceNext => {
                    let a = p.peek().copied();
                    if self.mode == Mode::PeekTwiceNext && p.peek().copied() != a {
                        odd = Some(format!("two peeks in a row differ after {text:?}"));
                    }
                    let c = p.next();
                    if a != c {
                        odd = Some(format!("after {text:?} peek shows {a:?} but next gives {c:?}"));
                    }
                    c
                }
                Mode::PeekMutNext => {
                    let a = p.peek_mut().copied();
                    let c = p.next();
                    if a != c {
                        odd = Some(format!("after {text:?} peek_mut shows {a:?} but next gives {c:?}"));
                    }
                    c
                }
                Mode::NextIf => p.next_if(|_| true),
                Mode::NextIfEq => match p.peek().copied() {
                    Some(a) => p.next_if_eq(&a),
                    None => None,
                },
                Mode::RefusedThenNext => {
                    if p.next_if(|_| false).is_some() || p.next_if_eq(&'\u{1}').is_some() {
                        odd = Some("a refused conditional read gave a character".into());
                    }
                    p.next()
                }
                Mode::NextPeek => {
                    let c = p.next();
                    p.peek();
                    c
                }
            };
            match c {
                Some(c) => text.push(c),
                None => break,
            }
        }
        if complete {
            // at the end it stays at the end
            if p.peek().is_some() || p.next().is_some() || p.next_if(|_| true).is_some() || p.next().is_some() {
                odd = Some(format!("the reader goes on after its end (text {text:?})"));
            }
        }
        self.log.lock().unwrap().push((name.to_string(), text, odd));
        if let Mode::Fail(_) = self.mode {
            return Err(ParserError::VmError { message: "no".into() });
        }
        Ok(vec![1, 2, 3])
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &usize, _: &mut ()) {}
    fn create_new_state() {}
}
type Got = Result<std::collections::BTreeMap<String, (Vec<Vec<refread::El>>, usize)>, ParserError>;
fn read<V: VM>(text: &str, vm: &V) -> Result<Got, String> {
    catch(|| {
        let mut pk = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut pk, vm);
        match rp.parse_rules() {
            Err(e) => Ok(Err(e)),
            Ok(_) => dump(&rp.parser_data).map(Ok),
        }
    })
    .map_err(|e| format!("{e}\nrule text: {text:?}"))?
}
/// One rule file against the reference reader, under one way of reading.
fn check(text: &str, mode: Mode, st: &mut Stat) -> Result<(), String> {
    let cs: Vec<char> = text.chars().collect();
    let f = refread::read(&cs);
    let vm = StyleVm { mode, log: Mutex::new(vec![]) };
    let r = read(text, &vm)?;
    let log = vm.log.into_inner().unwrap();
    st.states += 1;
    st.traces += 1;
    st.transitions += log.iter().map(|l| l.1.chars().count() as u64).sum::<u64>();
    let fail = |w: String| Err(format!("{w}\nVM reads by {mode:?} and saw {log:?}\nrule text: {text:?}"));
    if let Some((_, _, Some(o))) = log.iter().find(|l| l.2.is_some()) {
        return fail(o.clone());
    }
    let f = match f {
        Err(p) => {
            return if r.is_ok() && !matches!(mode, Mode::Partial(_)) { fail(format!("malformed text (at {p}) was read")) } else { Ok(()) };
        }
        Ok(f) => f,
    };
    let want: Vec<(String, String)> = f.rules.iter().filter_map(|r| r.section.clone().map(|s| (r.name.clone(), s))).collect();
    match mode {
        Mode::Fail(_) => {
            if !want.is_empty() && r.is_ok() {
                return fail("the VM failed but reading succeeded".into());
            }
            Ok(())
        }
        Mode::Partial(k) => {
            // what is left unread must not be dropped; at a left-over '}' anything goes
            let short = want.iter().find(|w| w.1.chars().count() > k);
            match short {
                None if r.is_err() => fail(format!("reading failed: {}", r.err().unwrap())),
                Some(w) if r.is_ok() && w.1.chars().nth(k) != Some('}') => {
                    fail(format!("section {w:?} was read although the VM left part of it unread"))
                }
                _ => Ok(()),
            }
        }
        _ => {
            let got: Vec<(String, String)> = log.iter().map(|l| (l.0.clone(), l.1.clone())).collect();
            if got != want {
                return fail(format!("the VM should have been given {want:?}"));
            }
            match r {
                Err(e) => fail(format!("reading failed: {e}")),
                Ok(d) => {
                    for r in f.merged() {
                        let n = if r.section.is_some() { 3 } else { 0 };
                        // whether a later statement's section counts is left open
                        let open = f.rules.iter().filter(|x| x.name == r.name).count() > 1;
                        if !open && d.get(&r.name).map(|x| x.1) != Some(n) {
                            return fail(format!("rule {} should have {n} instructions: {:?}", r.name, d.get(&r.name)));
                        }
                    }
                    let w: Vec<_> = f.woven().into_iter().map(|r| (r.name, r.alts)).collect();
                    if w.len() != d.len() || w.iter().any(|(n, a)| d.get(n).map(|x| &x.0) != Some(a)) {
                        return fail(format!("the rules around the section were read as {d:?}"));
                    }
                    Ok(())
                }
            }
        }
    }
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let chars = ['a', ' ', '}', '\\', '{', ';', '"', 'é', '\n'];
        let c = chars.len() as u64;
        let len = if q { 6 } else { 7 };
        let content = move |mut i: u64| {
            let mut l = 0;
            while i >= c.pow(l) {
                i -= c.pow(l);
                l += 1;
            }
            let mut t = String::new();
            for _ in 0..l {
                t.push(chars[(i % c) as usize]);
                i /= c;
            }
            t
        };
        let frames: [(&str, &str); 6] = [
            ("start -> \"x\" {", "};"),
            ("a -> #;start->a{", "}\n ; a2 -> \"x\"; b -> \"}\" | \"{\" {z}; c -> #;"),
            ("start -> \"x\" a | # {", "} ;a -> \"}\";"),
            ("start -> \"}\" {p}; b->\"\\\"\" {", "}; c -> start {\\}}; d -> #;"),
            ("start -> \"x\" {", ""),
            ("a->\"1\"{x};a->\"2\"{", "};b->#;"),
        ];
        let mut families = vec![];
        families.push(family(
            "contents",
            &format!("all section texts of up to {len} characters out of {c}, in {} rule files, {} ways of reading each (longest texts: two files, plain reading and peeking)", frames.len(), MODES.len()),
            (0..=len).map(|l| c.pow(l)).sum(),
            move |i, st| {
                let t = content(i);
                let long = t.chars().count() as u32 == len;
                for (k, (a, b)) in frames.iter().enumerate() {
                    for (j, m) in MODES.iter().enumerate() {
                        if long && (k % 3 != 1 || j > 1) {
                            continue;
                        }
                        check(&format!("{a}{t}{b}"), *m, st)?;
                    }
                }
                st.sample(|| format!("section text {t:?}"));
                Ok(())
            },
        ));
        let plen = 4;
        families.push(family(
            "partial",
            &format!("all section texts of up to {plen} characters out of {c}: VMs that stop reading, or fail, after every number of characters"),
            (0..=plen).map(|l| c.pow(l)).sum(),
            move |i, st| {
                let t = content(i);
                for (a, b) in &frames {
                    for k in 0..=plen as usize + 2 {
                        check(&format!("{a}{t}{b}"), Mode::Partial(k), st)?;
                        check(&format!("{a}{t}{b}"), Mode::Fail(k), st)?;
                    }
                }
                Ok(())
            },
        ));
        let blen = if q { 5 } else { 6 };
        families.push(family(
            "bundled",
            &format!("all section texts of up to {blen} characters out of {c} with the null, counting and simple stack VM, in {} rule files", frames.len()),
            (0..=blen).map(|l| c.pow(l)).sum(),
            move |i, st| {
                let t = content(i);
                for (a, b) in &frames {
                    let text = format!("{a}{t}{b}");
                    let f = refread::read(&text.chars().collect::<Vec<_>>());
                    let rs = [
                        ("null", read(&text, &NullVm::new())?),
                        ("counting", read(&text, &CountingVm {})?),
                        ("simple stack", read(&text, &SimpleStackVm {})?),
                    ];
                    for (n, r) in rs {
                        st.states += 1;
                        st.traces += 1;
                        st.transitions += text.len() as u64;
                        if r.is_ok() != f.is_ok() {
                            return Err(format!("{n} VM: well-formed={}, read={} {:?}\nrule text: {text:?}", f.is_ok(), r.is_ok(), r.err()));
                        }
                        if let (Ok(f), Ok(d)) = (&f, &r) {
                            let w: Vec<_> = f.woven().into_iter().map(|r| (r.name, r.alts)).collect();
                            if w.len() != d.len() || w.iter().any(|(n, a)| d.get(n).map(|x| &x.0) != Some(a)) {
                                return Err(format!("{n} VM: the rules were read as {d:?}\nrule text: {text:?}"));
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
        // which rules have sections
        families.push(family(
            "placement",
            "files of 1 to 6 rules, every choice of no, empty, blank, short or long section per rule, with 0..3 alternatives, all ways of reading",
            (1..=6u32).map(|n| 5u64.pow(n)).sum(),
            |mut i, st| {
                let mut n = 1;
                while i >= 5u64.pow(n) {
                    i -= 5u64.pow(n);
                    n += 1;
                }
                let mut t = String::new();
                for k in 0..n {
                    let s = ["", " {}", "{ }", "{x y}", "\n { Add; PushConst 3 ;\\} }"][(i % 5) as usize];
                    i /= 5;
                    let alts = ["\"x\"", "# ", "\"a\" r0 | #", "r1\"}\"|\"b\"|\"{\""][k as usize % 4];
                    t += &format!("r{k} -> {alts}{s};\n");
                }
                for m in MODES {
                    check(&t, m, st)?;
                }
                Ok(())
            },
        ));
        // whose section it is: names of every kind, as the only rule, after and before their prefixes
        let mut names: Vec<String> = ["a", "A", "a_", "a__", "_", "a_b", "a1", "a12_", "start_", "ü", "ß_", "日本", "é1_é", "IGNORE", "ab", "aB"].iter().filter(|n| **n != "_").map(|s| s.to_string()).collect();
        for n in [2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257] {
            names.push("n".repeat(n));
            names.push("x_1é".repeat(n)[..].chars().take(n).collect());
        }
        let nn = names.len() as u64;
        families.push(family(
            "names",
            &format!("pairs of {nn} rule names (underscores, digits, non-ASCII, up to 257 characters): sections of both, in two orders, all ways of reading"),
            nn * nn,
            move |i, st| {
                let (a, b) = (&names[(i % nn) as usize], &names[(i / nn) as usize]);
                if a == b {
                    st.skipped += 1;
                    return Ok(());
                }
                for m in MODES {
                    check(&format!("{a} -> \"x\" {b} {{ {b} ;}};\n{b}->{a}{{{a}}};"), m, st)?;
                    check(&format!("{a}{b} -> \"x\"; {a} -> \"{b}\" {a} {{{a}{b}}}; {b} -> # {{}};"), m, st)?;
                }
                Ok(())
            },
        ));
        let top = if q { 300u64 } else { 1200 };
        families.push(family(
            "long",
            &format!("sections of 0..{top} characters in 6 kinds of text, and files of 1..{} rules with sections; all ways of reading, and VMs that stop or fail at the end, one before it and in the middle", top / 5),
            top + 1,
            move |i, st| {
                let n = i as usize;
                for k in 0..6 {
                    let t: String = (0..n).map(|j| match k {
                        0 => 'a',
                        1 => ['a', ' '][j % 2],
                        2 => ['\\', '}'][j % 2],
                        3 => ['é', '日', '\n', '😀'][j % 4],
                        4 => ['{', ';', '"', '\\', '\\'][j % 5],
                        _ => if j + 3 > n { '}' } else { 'b' },
                    }).collect();
                    for (a, b) in [("start -> \"x\" {", "};"), ("a -> \"1\" {p}; b -> a | # {", "} ; c -> \"}\" {q};")] {
                        let text = format!("{a}{t}{b}");
                        for m in MODES {
                            check(&text, m, st)?;
                        }
                        for c in [n / 2, n.saturating_sub(1), n, n + 1] {
                            check(&text, Mode::Partial(c), st)?;
                            check(&text, Mode::Fail(c), st)?;
                        }
                    }
                }
                if n <= top as usize / 5 {
                    let t: String = (0..n).map(|j| format!("r{j} -> \"x\" {{{}}};", "y".repeat(j % 5))).collect();
                    for m in MODES {
                        check(&t, m, st)?;
                    }
                }
                Ok(())
            },
        ));
        families.push(family(
            "huge",
            "sections of n characters in 6 kinds of text, n around 128, 256, 4096, 32768, 65536 and 70000; all ways of reading, and VMs that stop or fail around the end and in the middle; as many rules with sections (n<5000)",
            hx::huge::SIZES.len() as u64 * 6,
            |i, st| {
                let (n, k) = (hx::huge::SIZES[(i / 6) as usize], i % 6);
                let t: String = (0..n).map(|j| match k {
                    0 => 'a',
                    1 => ['a', ' '][j % 2],
                    2 => ['\\', '}'][j % 2],
                    3 => ['é', '日', '\n', '😀'][j % 4],
                    4 => ['{', ';', '"', '\\', '\\'][j % 5],
                    _ => if j + 3 > n { '}' } else { 'b' },
                }).collect();
                let cut = |e: String| format!("{}\n(section text of kind {k}, {n} characters)", e.chars().take(2000).collect::<String>());
                let text = format!("a -> \"1\" {{p}}; b -> a | # {{{t}}} ; c -> \"}}\" {{q}};");
                for m in MODES {
                    check(&text, m, st).map_err(cut)?;
                }
                for c in [n / 2, n - 1, n, n + 1] {
                    check(&text, Mode::Partial(c), st).map_err(cut)?;
                    check(&text, Mode::Fail(c), st).map_err(cut)?;
                }
                if n < 5000 {
                    let t: String = (0..n).map(|j| format!("r{j} -> \"x\" {{{}}};", "y".repeat((j + k as usize) % 5))).collect();
                    check(&t, MODES[k as usize], st).map_err(cut)?;
                }
                Ok(())
            },
        ));
        const HOLES: &[&str] = &[
            "start -> \"x\" {□};b->#;",
            "start -> \"x\" {□a□};b->#;",
            "start -> \"x\" { □a}□;b->#;",
            "start -> \"x\"□{a□b}\n;b->#{□};",
            "start -> x {\\□}};x->#{b};",
            "start -> x {}□;x->#{{□};",
        ];
        families.extend(hx::uni::texts("", HOLES, |t, st| {
            for m in [Mode::Next, Mode::NextIfEq, Mode::Partial(1), Mode::Partial(2)] {
                check(t, m, st)?;
            }
            Ok(())
        }));
        Check {
            id: "C11",
            technique: "exhaustive bounded exploration of section texts x VM reading styles x file contexts against a reference reader",
            assumptions: vec!["a VM that stops reading before a '}' inside its section is not judged".into()],
            families,
        }
    })
}
