//! C26: a malformed rule file is reported where it goes wrong.
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::vms::stack_vm::StackVm;
use hx::dump::read_real;
use hx::real::edits;
use hx::refread;
use hx::run::*;

/// Whether `e` places the fault of `cs` at one of `ps`.
fn placed(cs: &[char], e: &ParserError, ps: &[usize]) -> Result<&'static str, String> {
    let at = |p: &usize| ps.contains(p);
    match e {
        ParserError::UnexpectedCharError { chr, pos, .. } => {
            if cs.get(*pos) != Some(chr) {
                return Err(format!("it names the character {chr:?}, but at position {pos} there is {:?}", cs.get(*pos)));
            }
            if !at(pos) {
                return Err(format!("it goes wrong at {ps:?}"));
            }
            Ok("unexpected character")
        }
        ParserError::EndOfCharsError { pos } => {
            if !at(pos) {
                return Err(format!("it goes wrong at {ps:?}"));
            }
            Ok("end of the text")
        }
        // what is wrong here is an alternative as a whole: its last character or what comes after
        ParserError::GramError { err: GrammarError::UnexpectedElementError { pos, .. } } => {
            if !ps.iter().any(|p| pos == p || *pos == p + 1) {
                return Err(format!("it goes wrong at {ps:?}"));
            }
            Ok("unexpected element")
        }
        e => Err(format!("{e:?} does not say where: it goes wrong at {ps:?}")),
    }
}
fn judge(text: &str, st: &mut Stat) -> Result<bool, String> {
    st.states += 1;
    let cs: Vec<char> = text.chars().collect();
    st.transitions += cs.len() as u64;
    let p = match refread::read(&cs) {
        Ok(_) => {
            st.count("well-formed");
            return Ok(true);
        }
        Err(p) => p,
    };
    let r = catch(|| read_real(text)).map_err(|e| format!("{e}\nrule text: {text:?}"))?;
    let Ok(Err(e)) = r else {
        st.count("read (decided by C10)");
        return Ok(false);
    };
    st.traces += 1;
    let bad = |w: String| format!("the error is {e:?}, but {w}\nrule text: {text:?}");
    if let ParserError::UnknownSpecialOperation { operation, pos } = &e {
        let o: Vec<char> = operation.chars().collect();
        if operation == "IGNORE" || cs.get(*pos..*pos + o.len()) != Some(&o[..]) {
            return Err(bad(format!("at position {pos} that is not what is written")));
        }
        if *pos + o.len() != p {
            return Err(bad(format!("it goes wrong at {p}")));
        }
        st.count("unknown operation");
        return Ok(false);
    }
    // after "$[name" with an unknown name, what follows may be looked at first
    let mut ps = vec![p];
    let mut a = p;
    while a > 0 && (cs[a - 1].is_alphanumeric() || cs[a - 1] == '_') {
        a -= 1;
    }
    if a < p && a >= 2 && cs[a - 2] == '$' && cs[a - 1] == '[' {
        let mut b = p;
        while b < cs.len() && cs[b].is_whitespace() {
            b += 1;
        }
        ps.push(b);
    }
    if let ParserError::EndOfCharsError { pos } = &e {
        if *pos != cs.len() {
            return Err(bad(format!("the text ends at {}", cs.len())));
        }
    }
    st.count(placed(&cs, &e, &ps).map_err(bad)?);
    Ok(false)
}
/// Depth-first over token strings; see C10.
fn grow(text: &mut String, depth: usize, slack: usize, toks: &[&str], st: &mut Stat) -> Result<(), String> {
    judge(text, st)?;
    if depth == 0 {
        return Ok(());
    }
    let cs: Vec<char> = text.chars().collect();
    let dead = matches!(refread::read(&cs), Err(p) if p < cs.len());
    if dead && slack == 0 {
        return Ok(());
    }
    for t in toks {
        let l = text.len();
        text.push_str(t);
        grow(text, depth - 1, if dead { slack - 1 } else { slack }, toks, st)?;
        text.truncate(l);
    }
    Ok(())
}

const PLAIN: &[&str] = &["Add", "Sub", "Digit", "PopToReg", "PopToReg2", "PopDiscard", "PushFromTree", "PushReg", "PushReg2", "PrintReg", "PrintReg2", "PrintError"];
/// Where stack-machine action text goes wrong: nothing if it does not, else the places that may be
/// named and whether it is a constant too large.
fn assemble(t: &[char]) -> Option<(Vec<usize>, bool)> {
    let mut i = 0;
    let mut open = None;
    fn ws(t: &[char], i: &mut usize) {
        while *i < t.len() && t[*i].is_whitespace() {
            *i += 1
        }
    }
    let at = |i: usize, open: Option<usize>| Some((open.into_iter().chain([i]).collect(), false));
    ws(t, &mut i);
    while i < t.len() {
        if !t[i].is_alphabetic() {
            return at(i, open);
        }
        let a = i;
        while i < t.len() && (t[i].is_alphanumeric() || t[i] == '_') {
            i += 1
        }
        let name: String = t[a..i].iter().collect();
        if !PLAIN.contains(&&*name) && ["RegAddConst", "PushConst", "Pow"].contains(&&*name) {
            ws(t, &mut i);
            let a = i;
            while i < t.len() && t[i].is_ascii_digit() {
                i += 1
            }
            if a == i {
                return at(i, open);
            }
            let d: String = t[a..i].iter().collect();
            let v: Option<u64> = d.parse().ok();
            if v.is_none_or(|v| name != "Pow" && v > i64::MAX as u64) {
                return Some((open.into_iter().collect(), true));
            }
        }
        if i < t.len() && t[i].is_whitespace() {
            // whitespace before the semicolon: left open
            open = open.or(Some(i));
            ws(t, &mut i);
        }
        if i >= t.len() || t[i] != ';' {
            return at(i, open);
        }
        i += 1;
        ws(t, &mut i);
    }
    open.map(|o| (vec![o], false))
}
/// A stack-machine action text in a rule file, as the section of its k-th rule.
fn section(pre: &str, sec: &str, post: &str, st: &mut Stat) -> Result<(), String> {
    st.states += 1;
    let t: Vec<char> = sec.chars().collect();
    st.transitions += t.len() as u64;
    let Some((ps, large)) = assemble(&t) else {
        st.count("assembled");
        return Ok(());
    };
    let text = format!("{pre}{sec}{post}");
    let cs: Vec<char> = text.chars().collect();
    let off = pre.chars().count();
    let ps: Vec<usize> = ps.iter().map(|p| p + off).collect();
    let r = catch(|| {
        let vm = StackVm {};
        let mut pk = PeekableWrapper::from_str(&text);
        let mut rp = RuleParser::new(&mut pk, &vm);
        rp.parse_rules().err()
    })
    .map_err(|p| format!("{p}\nrule text: {text:?}"))?;
    let Some(e) = r else {
        st.count("assembled (decided by C21)");
        return Ok(());
    };
    st.traces += 1;
    if large && matches!(e, ParserError::Impossible) {
        st.count("constant too large");
        return Ok(());
    }
    st.count(placed(&cs, &e, &ps).map_err(|w| format!("the error is {e:?}, but {w}\nrule text: {text:?}"))?);
    Ok(())
}

const TOKENS: &[&str] = &["a", "b", "->", "-", ";", "|", "#", "\"x\"", "\"", "{", "}", "$", "IGNORE", ":", "[", "]", " ", "\\", ">", "é"];
const FILES: &[&str] = &[
    "start -> \"a\";",
    "start->a|#;a->\"x\" \"y\"start{Add;PushConst 3;};",
    "start -> \"a\" b \"c\" | # {1} ;\nb -> \"\\\"q\\\\\" | \"|;#\" ;",
    "$IGNORE: ws; start -> \"a\" \"b\"; ws -> $[IGNORE:#]\" \" ws | #;",
    "start -> $[IGNORE:ws]\"a\" x_1 {} ; ws->\"\\n\"; x_1 -> #;",
    "ä -> \"😀\" ä2 | #; ä2 -> ä {\\}} ; start -> ä;",
    "start -> a\n | \"b\"\n | c d\n ;\na -> \"1\";c->\"2\";d->#;",
];
const CHARS: &[char] = &['a', '"', '\\', ';', '|', '#', '{', '}', '-', '>', '$', '[', ']', ':', ' ', '\n', '_', '1', 'é', '😀'];

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let d = if q { 5 } else { 6 };
        let n = TOKENS.len() as u64;
        families.push(family("tokens", &format!("all texts of up to {d} tokens out of {n}"), n * n + 1, move |i, st| {
            let (mut t, k) = if i == n * n { (String::new(), 1) } else { (format!("{}{}", TOKENS[(i / n) as usize], TOKENS[(i % n) as usize]), d - 2) };
            grow(&mut t, k, usize::MAX, TOKENS, st)
        }));
        let toks: &[&str] = &["a", "b", "->", ";", "|", "#", "\"x\"", "{", "}", "$", "IGNORE", ":", "[", "]", " "];
        let heads: &[&str] = &["", "a->\"x\";", "$IGNORE:a;a->#;", "a->a b|", "a->#{", "a->$[", "ä -> \"é\" ", "b->#;$IGNORE", "a->$[IGNORE:", "a->\"x\"{a}", "a->b{é\\}}", "\n a->\"\\\"\""];
        let m = toks.len() as u64;
        let dd = if q { 6 } else { 7 };
        families.push(family(
            "continuations",
            &format!("after {} beginnings: all texts of up to {dd} further tokens out of {m}, where a text that no continuation can repair is extended by one more token only", heads.len()),
            heads.len() as u64 * m * m,
            move |i, st| {
                let h = heads[(i / (m * m)) as usize];
                let j = i % (m * m);
                let mut t = format!("{h}{}{}", toks[(j / m) as usize], toks[(j % m) as usize]);
                grow(&mut t, dd - 2, 1, toks, st)
            },
        ));
        let mut jobs = vec![];
        for (f, t) in FILES.iter().enumerate() {
            let k = t.chars().count() + 1;
            jobs.extend((0..if q { 1 } else { k }).map(|p| (f, p, k)));
        }
        families.push(family(
            "edits",
            &format!("{} rule files: every text at edit distance 1{} over {} characters, and every truncation", FILES.len(), if q { "" } else { " and 2" }, CHARS.len()),
            jobs.len() as u64,
            move |i, st| {
                let (f, p, k) = jobs[i as usize];
                let s: Vec<char> = FILES[f].chars().collect();
                let first = edits(&s, CHARS);
                let mut all: Vec<Vec<char>> = if p == 0 { first } else { first.iter().enumerate().filter(|(x, _)| x % (k - 1) == p - 1).flat_map(|(_, e)| edits(e, CHARS)).collect() };
                all.sort();
                all.dedup();
                for c in all {
                    judge(&c.iter().collect::<String>(), st)?;
                }
                st.sample(|| format!("edits of {:?}", FILES[f]));
                Ok(())
            },
        ));
        // after long beginnings: rules, comments of whitespace, long names, sections
        let pads: Vec<(&str, fn(usize) -> String)> = vec![
            ("rules", |k| "r -> \"t\" ;\n".repeat(k)),
            ("whitespace", |k| " \n\t\u{a0}".repeat(k)),
            ("a long name", |k| format!("n{} -> #;", "ä".repeat(k))),
            ("a long terminal", |k| format!("n -> \"{}\";", "\\\"é😀".repeat(k))),
            ("alternatives", |k| format!("n -> \"a\"{};", " | b c".repeat(k))),
            ("sections", |k| "n -> # {\\}é} ;".repeat(k)),
            ("a long section", |k| format!("n -> # {{ {} }} ;", "\\} x😀".repeat(k))),
            ("directives", |k| "$IGNORE : n ;".repeat(k)),
            ("overrides", |k| "n -> $[IGNORE :#]\"a\" ;".repeat(k)),
        ];
        let sizes: Vec<usize> = (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000]).collect();
        let faults: Vec<&'static str> = vec!["x", "x y", "x ->", "x -> ;", "x -> a | ;", "x -> a # ;", "x -> # a;", "x -> \"a", "x -> a {", "x -> a { b", "x -> a } ;", "$", "$IGNOR:", "$IGNORE;", "$IGNORE:;", "x -> $;", "x -> $[", "x -> $[IGNORES:#]a;", "x -> $[IGNORE:]", "x -> $[IGNORE:a", "1", "é", "-> a;", "x - > a;", "\"x\" -> a;"];
        let pads2 = pads.clone();
        let pads3 = pads.clone();
        let (np, ns, nf) = (pads.len() as u64, sizes.len() as u64, faults.len() as u64);
        families.push(family(
            "after",
            &format!("{np} kinds of well-formed beginnings, repeated or long in {ns} sizes 0..1000, then each of {nf} faults"),
            np * ns * nf,
            move |i, st| {
                let (p, s, f) = (&pads[(i % np) as usize], sizes[(i / np % ns) as usize], faults[(i / np / ns) as usize]);
                let t = format!("{}{f}", (p.1)(s));
                st.sample(|| format!("{} x {s} then {f:?}", p.0));
                if judge(&t, st)? {
                    return Err(format!("internal: {t:?} is well-formed"));
                }
                Ok(())
            },
        ));
        // stack-machine action sections
        let around: Vec<(&str, &str)> = vec![
            ("start->#{", "};"),
            ("é -> \"😀\" {Add;};\nstart -> \"a\" | é {\n  ", "} ; x -> #;"),
            ("$IGNORE : start; start -> \"a\\\"\" \n{", "}"),
        ];
        let na = around.len() as u64;
        let stoks: Vec<&'static str> = vec!["Add", "Pow", "PushConst", "PopToReg2", "Foo_1", " ", "\n", ";", "0", "12", "_", ",", "\"", "é", "9223372036854775808", "\\"];
        let k = stoks.len() as u64;
        for len in 0..=if q { 5u32 } else { 6 } {
            let stoks = stoks.clone();
            let around = around.clone();
            families.push(family(&format!("actions-{len}"), &format!("stack-machine action sections in {na} places of a rule file: all texts of {len} tokens out of {k}"), k.pow(len) * na, move |i, st| {
                let (mut j, a) = (i / na, around[(i % na) as usize]);
                let mut s = String::new();
                for _ in 0..len {
                    s.push_str(stoks[(j % k) as usize]);
                    j /= k;
                }
                st.sample(|| format!("{s:?}"));
                section(a.0, &s, a.1, st)
            }));
        }
        let all: Vec<char> = "  PopToReg; Add;Sub;Digit;PopToReg2;\nPopDiscard;Pow 10;RegAddConst 1;PushReg;PushReg2;PushFromTree;PushConst 42; PrintReg;PrintReg2;PrintError;".chars().collect();
        let sigma: Vec<char> = " ;_2aA9.,é\n".chars().collect();
        let m = all.len() as u64 + 1;
        let reps = 40u64;
        families.push(family(
            "action-edits",
            "a program of all 15 instructions after 0..39 copies of itself with every single edit: deletion, substitution by and insertion of each of 11 characters, truncation",
            m * (2 + 2 * sigma.len() as u64) * reps,
            move |i, st| {
                let (p, e, k) = ((i % m) as usize, (i / m % (2 + 2 * sigma.len() as u64)) as usize, i / m / (2 + 2 * sigma.len() as u64));
                let mut t = all.clone();
                let ns = sigma.len();
                if e == 0 {
                    t.truncate(p);
                } else if e == 1 {
                    if p < t.len() {
                        t.remove(p);
                    }
                } else if e < 2 + ns {
                    if p < t.len() {
                        t[p] = sigma[e - 2];
                    }
                } else {
                    t.insert(p, sigma[e - 2 - ns]);
                }
                let whole: String = all.iter().collect::<String>().repeat(k as usize);
                section("start -> \"é\" {", &(whole + &t.into_iter().collect::<String>()), "};", st)
            },
        ));
        let hsizes = [4096usize, 8193, 65537];
        let hfaults = ["x", "x -> ;", "x -> a # ;", "x -> \"a", "x -> a { b", "$IGNORE;", "1", "x -> $[IGNORE:a"];
        families.push(family(
            "after-huge",
            &format!("the same beginnings in sizes {hsizes:?}, then each of {} faults", hfaults.len()),
            np * (hsizes.len() * hfaults.len()) as u64,
            move |i, st| {
                let (p, s, f) = (&pads2[(i % np) as usize], hsizes[(i / np) as usize % 3], hfaults[(i / np / 3) as usize]);
                let t = format!("{}{f}", (p.1)(s));
                match judge(&t, st) {
                    Err(e) => Err(format!("{}\n({} x {s} then {f:?})", e.chars().take(1500).collect::<String>(), p.0)),
                    Ok(true) => Err("internal: well-formed".into()),
                    Ok(false) => Ok(()),
                }
            },
        ));
        // a faulty stack-machine section far into the text, and a fault far into a section
        let starts: Vec<usize> = [0usize, 255, 1023, 4095, 8191, 32767, 65535, 131071].iter().flat_map(|b| b.saturating_sub(2)..=b + 2).chain([70000, 200000]).collect();
        let wrong = ["Add;1", "Pow", "Add", "PushConst ;", "é;", "Foo 1;", "Add ;", "PrintReg;Add,", "\u{a0}Add;;", "Pow 12 3;", "_"];
        let (nst, nw) = (starts.len() as u64, wrong.len() as u64);
        families.push(family(
            "far-sections",
            &format!("{} kinds of well-formed beginnings and whitespace up to one of {nst} places 0..200000 where a section starts, or as long a section, then each of {nw} faulty instruction texts", np - 2),
            (np - 1) * nst * nw,
            move |i, st| {
                let (p, w) = ((i % (np - 1)) as usize, wrong[(i / (np - 1) % nw) as usize]);
                let at = starts[(i / (np - 1) / nw) as usize];
                // the two kinds with action texts are not for this machine
                let kinds = [0usize, 1, 2, 3, 4, 7, 8];
                let cut = |e: String| format!("{}\n(the section starts or is {at} characters in, its fault is {w:?})", e.chars().take(1500).collect::<String>());
                if p == kinds.len() {
                    let sec = "Add; PopToReg;\n".repeat(at / 15) + &" ".repeat(at % 15);
                    return section("start -> \"é\" {", &(sec + w), "};", st).map_err(cut);
                }
                let head = "start -> # {";
                let (one, two) = ((pads3[kinds[p]].1)(1).chars().count(), (pads3[kinds[p]].1)(2).chars().count());
                let room = at.saturating_sub(head.len());
                let k = if room < one { 0 } else { 1 + (room - one) / (two - one) };
                let mut pre = if k == 0 { String::new() } else { (pads3[kinds[p]].1)(k) };
                let have = pre.chars().count();
                if have > room {
                    return Err("internal: too long a beginning".into());
                }
                pre.push_str(&" ".repeat(room - have));
                pre.push_str(head);
                section(&pre, w, "};", st).map_err(cut)
            },
        ));
        families.extend(hx::uni::texts("", hx::uni::HOLES, |t, st| judge(t, st).map(|_| ())));
        families.extend(hx::uni::texts("-actions", &["start -> \"a\" {□}; z -> \"b\";", "Add□;", "A□d;", "□Add;", "Add;□PopToReg;", "Pow□3;", "Pow 1□2;Add;", "PushConst 3□;Add;"], |t, st| match t.strip_prefix("start -> \"a\" {") {
            Some(_) => judge(t, st).map(|_| ()),
            None if t.contains('}') => Ok(()),
            None => section("start -> \"a\" {", t, "}; z -> \"b\";", st),
        }));
        Check {
            id: "C26",
            technique: "exhaustive bounded exploration of malformed rule texts: reported place against a reference reader",
            assumptions: vec![
                "of an alternative that is faulty as a whole, its last character or the one after may be named".into(),
                "whitespace between an instruction and its semicolon may or may not be the fault".into(),
                "a constant too large is refused without a place".into(),
            ],
            families,
        }
    })
}
