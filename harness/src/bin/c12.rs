//! C12: ignorable rules are accepted between elements, nowhere else.
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::NullVm;
use hx::dump::check_text;
use hx::fam;
use hx::gram::*;
use hx::refread::{to_gram, RefFile};
use hx::langs;
use hx::run::*;
use hx::vmx::{read_tree, root, LTree};

type Rules = &'static [(&'static str, &'static str)];
/// Rule sets; "ws" and "other" are the rules that may be ignorable.
const SETS: &[Rules] = &[
    &[("start", "\"a\" item \"z\" | \"q\""), ("item", "\"b\" \"c\" | #"), ("ws", "\" \" ws | #"), ("other", "\".\" \"!\" | #")],
    &[("start", "item item2"), ("item", "\"b\" \"c\" item2 | \"ws\""), ("item2", "\"k\" | # "), ("ws", "sp wst | #"), ("wst", "ws"), ("sp", "\"_\" \"-\""), ("other", "\".\"")],
    &[("start", "\"s\" ws \"e\""), ("ws", "in \"w\" | #"), ("in", "\"(\" in2 \")\""), ("in2", "\"i\" \"j\""), ("other", "in2 \"o\" in2")],
    &[("ws", "\" \""), ("start", "\"x\" | \"y\" start \"y\" | \"u\" \"v\" other"), ("other", "\",\" \";\" other | #")],
    &[("other", "ws \"o\" ws"), ("ws", "w1 w2"), ("w1", "\"1\" \"1\" | #"), ("w2", "\"2\" \"w1\" | #"), ("start", "\"a\" \"a\" | \"b\" w1 w2")],
    &[("start", "\"a\" \"b\" ws"), ("ws", "start2 \"!\" | #"), ("start2", "\"c\" ws \"d\""), ("other", "#")],
];
const OVER: [&str; 4] = ["", "$[IGNORE:#] ", "$[IGNORE:ws]", "$[IGNORE:other]"];

/// directive placements: (position, name) up to two of them
fn placements(n: usize) -> Vec<Vec<(usize, &'static str)>> {
    let mut v = vec![vec![]];
    let one: Vec<(usize, &str)> = (0..=n).flat_map(|p| [(p, "ws"), (p, "other")]).collect();
    for a in &one {
        v.push(vec![*a]);
    }
    for a in &one {
        for b in &one {
            if a.0 <= b.0 {
                v.push(vec![*a, *b]);
            }
        }
    }
    v
}
fn text_of(set: Rules, rot: usize, over: u64, place: &[(usize, &'static str)]) -> String {
    let n = set.len();
    let mut o = String::new();
    let mut k = over;
    for p in 0..=n {
        for (q, name) in place {
            if *q == p {
                o += &format!("$IGNORE: {name};\n");
            }
        }
        if p < n {
            let (name, body) = set[(p + rot) % n];
            o += &format!("{name} -> {}{body};\n", OVER[(k % 4) as usize]);
            k /= 4;
        }
    }
    o
}

fn outcome(p: &mut Parser<'static, NullVm>, s: &'static str) -> Result<LTree, String> {
    match catch(|| p.parse(s, &mut 0usize)) {
        Err(e) => Err(format!("{e}")),
        Ok(Err(e)) => {
            use henriks_parsing_project::errors::ParserError::*;
            Err(match e {
                UnexpectedCharError { chr, pos, .. } => format!("unexpected {chr:?} at {pos}"),
                EndOfCharsError { pos } => format!("end at {pos}"),
                e => format!("{e}"),
            })
        }
        Ok(Ok(t)) => read_tree(&t, root()),
    }
}
static VM: NullVm = NullVm {};

/// The file behaves like the one with the ignorable rules written out by hand.
fn behave(text: &str, f: &RefFile, maxlen: usize, st: &mut Stat) -> Result<(), String> {
    let w = f.woven();
    if !w.iter().any(|r| r.name == "start") {
        return Ok(());
    }
    let g = to_gram(&w);
    let an = analyse(&g);
    let manual = g.render();
    let a = catch(|| Parser::new_from_text(text, &VM));
    let b = catch(|| Parser::new_from_text(&manual, &VM));
    if a.is_ok() != b.is_ok() {
        return Err(format!("with directives a parser is {}, written out by hand it is {}\n{text}\nby hand:\n{manual}", if a.is_ok() { "built" } else { "refused" }, if b.is_ok() { "built" } else { "refused" }));
    }
    let (Ok(mut a), Ok(mut b)) = (a, b) else {
        st.count("refused grammars");
        return Ok(());
    };
    st.count("parsers built");
    if !an.ll1() {
        return Ok(());
    }
    let sg = fam::sigma(&g);
    for c in probes(&g, &an, &sg, maxlen, 400, false) {
        let s: &'static str = Box::leak(c.s.iter().collect::<String>().into_boxed_str());
        st.traces += 1;
        st.transitions += c.s.len() as u64;
        let (x, y) = (outcome(&mut a, s), outcome(&mut b, s));
        if x.is_ok() != c.accept {
            return Err(format!("script {s:?}: should be accepted={}, but {x:?}\n{text}\nby hand:\n{manual}", c.accept));
        }
        if x != y {
            return Err(format!("script {s:?}: with directives {x:?}, by hand {y:?}\n{text}\nby hand:\n{manual}"));
        }
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        for (si, set) in SETS.iter().enumerate() {
            let set: Rules = set;
            let n = set.len();
            let pl = placements(n);
            // how many leading rules get every override
            let over = n.min(if q { 5 } else { 7 });
            let total = pl.len() as u64 * n as u64 * 4u64.pow(over as u32);
            families.push(family(
                &format!("set{si}"),
                &format!("rules {set:?} in every rotation: none, one or two $IGNORE directives at every position x every override of the first {over} rules; the grammar read"),
                total,
                move |i, st| {
                    let o = i % 4u64.pow(over as u32);
                    let i = i / 4u64.pow(over as u32);
                    let t = text_of(set, (i % n as u64) as usize, o, &pl[(i / n as u64) as usize]);
                    st.states += 1;
                    st.traces += 1;
                    st.sample(|| t.replace('\n', " "));
                    check_text(&t, true)?;
                    Ok(())
                },
            ));
            let pl: Vec<_> = placements(n).into_iter().filter(|p| p.len() < 2 || (!q && p[0].1 != p[1].1)).collect();
            // at most two rules with an override
            let mut os: Vec<u64> = vec![0];
            for a in 0..n as u32 {
                for x in 1..4 {
                    os.push(x * 4u64.pow(a));
                    for b in a + 1..n as u32 {
                        for y in 1..4 {
                            if !q || y == 1 || x == 1 {
                                os.push(x * 4u64.pow(a) + y * 4u64.pow(b));
                            }
                        }
                    }
                }
            }
            let rots = if q { 1 } else { n as u64 };
            let total = pl.len() as u64 * os.len() as u64 * rots;
            let ml = if q { 5 } else { 7 };
            families.push(family(
                &format!("parse{si}"),
                &format!("rules {set:?}: up to two directives, up to two overrides; building and all scripts up to {ml} (first 400) against the rules written out by hand"),
                total,
                move |i, st| {
                    let rot = (i % rots) as usize;
                    let i = i / rots;
                    let o = os[(i % os.len() as u64) as usize];
                    let t = text_of(set, rot, o, &pl[(i / os.len() as u64) as usize]);
                    st.states += 1;
                    st.sample(|| t.replace('\n', " "));
                    if let Some(f) = check_text(&t, true)? {
                        if !hx::dump::undefined_ignorable(&f) {
                            behave(&t, &f, ml, st)?;
                        }
                    }
                    Ok(())
                },
            ));
        }
        // a rule without ignorables and three elements under every directive/override pair, with generated bodies
        let f = fam::two(if q { 2 } else { 3 });
        let mk = f.make.clone();
        families.push(family(
            "two-ignored",
            "every grammar of the family 'two' (2 rules, <=2 alternatives, <=2 elements) plus ws -> \" \" ws | #, with the directive in front, between or behind, and one rule exempted or not",
            f.n * 5,
            move |i, st| {
                let g = mk(i / 5);
                let r = g.render();
                let lines: Vec<&str> = r.lines().collect();
                let ws = "ws -> \" \" ws | #;";
                let t = match i % 5 {
                    0 => format!("$IGNORE: ws;\n{r}{ws}"),
                    1 => format!("{}\n$IGNORE:ws ;\n{}\n{ws}", lines[0], lines.get(1).unwrap_or(&"")),
                    2 => format!("{ws}$IGNORE : ws;{}\n{}", lines[0], lines.get(1).unwrap_or(&"").replacen("->", "->$[IGNORE:#]", 1)),
                    3 => format!("{}\n{}\n{ws}", lines[0].replacen("->", "->$[IGNORE:ws]", 1), lines.get(1).unwrap_or(&"")),
                    _ => format!("{r}{ws}$IGNORE: ws;"),
                };
                st.states += 1;
                match check_text(&t, true)? {
                    None => panic!("not well-formed: {t}"),
                    Some(f) => behave(&t, &f, 3, st),
                }
            },
        ));
        // what the ignorable rule is made of: every reference graph of four rules, in every layout
        let layouts = if q { 4u64 } else { 8 };
        families.push(family(
            "made-of",
            &format!("start, an ignorable rule and three more: every one of the 2^16 ways in which the four refer to each other, {layouts} layouts (all in one alternative, one alternative each, terminals and empty alternatives in front, directive in front or overrides, order of the rules); the grammar read"),
            65536 * layouts,
            move |i, st| {
                let (v, m) = (i / 65536, i % 65536);
                let names = ["ws", "p", "q", "r"];
                let mut lines: Vec<String> = vec![];
                for a in 0..4usize {
                    let refs: Vec<usize> = (0..4).filter(|b| m >> (4 * a + b) & 1 == 1).collect();
                    let t = format!("\"{a}\" \"+\"");
                    let mut alts: Vec<String> = vec![];
                    match (v + a as u64) % 4 {
                        0 => alts.push(format!("{t} {}", refs.iter().map(|b| names[*b]).collect::<Vec<_>>().join(" "))),
                        1 => {
                            alts.extend(refs.iter().map(|b| format!("\"{b}\" {}", names[*b])));
                            alts.push(t);
                        }
                        2 => {
                            alts.push("#".into());
                            alts.push(t.clone());
                            alts.extend(refs.iter().map(|b| format!("\"!\" \"{b}\" {} \"?\"", names[*b])));
                        }
                        _ => {
                            alts.push(t.clone());
                            alts.push(format!("{t} {t} {}", refs.iter().rev().map(|b| names[*b]).collect::<Vec<_>>().join(" \",\" ")));
                            alts.push("\"x\"".into());
                        }
                    }
                    let o = if v % 2 == 1 && a > 0 { "$[IGNORE:ws] " } else { "" };
                    lines.push(format!("{} -> {o}{};", names[a], alts.join(" | ")));
                }
                lines.push(format!("start -> {}\"s\" p q r;", if v % 2 == 1 { "$[IGNORE:ws]" } else { "" }));
                if v / 2 % 2 == 1 {
                    lines.reverse();
                }
                if v % 2 == 0 {
                    lines.insert(0, "$IGNORE: ws;".into());
                }
                st.states += 1;
                st.traces += 1;
                check_text(&lines.join("\n"), true)?;
                Ok(())
            },
        ));
        let top = if q { 70u64 } else { 300 };
        let mut ns: Vec<u64> = (1..=top).collect();
        ns.extend([127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001].into_iter().filter(|n| *n > top));
        families.push(family(
            "large",
            &format!("an ignorable rule of n alternatives, of n elements, made of a chain of n rules, of a ring of n rules; n rules with ignorables; a rule of n elements, of n alternatives; n directives in turn; n=1..{top} and around powers of two up to 1001; the grammar read, and parsed with up to 20"),
            ns.len() as u64 * 8,
            move |i, st| {
                let (n, k) = (ns[i as usize / 8] as usize, i % 8);
                let c = |j: usize| char::from_u32(0x4e00 + j as u32).unwrap();
                let all = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
                let user = "start -> \"a\" \"b\" \"c\" d | \"x\"; d -> \"e\" \"f\";";
                let sub = "\"u\" \"v\";";
                let t = match k {
                    0 => format!("$IGNORE: ws; {user} ws -> {} | \"{}\" s | \" \"; s -> {sub}", all(&|j| format!("\"{}\"", c(j)), " | "), c(n)),
                    1 => format!("$IGNORE: ws; {user} ws -> {} s | #; s -> {sub}", all(&|j| format!("\"{}\"", c(j)), " ")),
                    2 => format!("$IGNORE: w0; {user} {} w{n} -> {sub}", all(&|j| format!("w{j} -> \"{}\" w{} | #;", c(j), j + 1), " ")),
                    3 => format!("$IGNORE: w{}; {user} {}", n / 2, all(&|j| format!("w{j} -> \"{}\" \"-\" w{} | #;", c(j), (j + 1) % n), " ")),
                    4 => format!("$IGNORE: ws; ws -> \" \" ws | #; start -> r0 \"!\"; {}", all(&|j| format!("r{j} -> \"{}\" {} \"q\";", c(j), if j + 1 < n { format!("r{}", j + 1) } else { String::new() }), "\n")),
                    5 => format!("start -> {}; $IGNORE: ws; ws -> \" \" ws | #; d -> {};", all(&|j| format!("\"{}\"", c(j)), " "), all(&|j| format!("\"{}\"", c(j)), " ")).replacen("start", "d2", 1) + "start -> \"1\" d | \"2\" d2;",
                    6 => format!("$IGNORE: ws; start -> {}; ws -> \" \" ws | #;", all(&|j| format!("\"{}\" \"y\" \"z\"", c(j)), " | ")),
                    _ => format!("start -> r0; {} r{n} -> \"e\" \"e\"; w0 -> \"_\" w0 | #; w1 -> \".\" | #; w2 -> \"~\" w2 | \"=\";", all(&|j| format!("$IGNORE: w{}; r{j} -> \"{}\" r{};", j % 3, c(j), j + 1), "\n")),
                };
                st.states += 1;
                match check_text(&t, true)? {
                    None => panic!("not well-formed: {t}"),
                    Some(f) if n <= 20 => behave(&t, &f, 4, st),
                    _ => Ok(()),
                }
            },
        ));
        // what is between which elements: all bodies
        let seqs = |els: &[&str], l: u32| -> Vec<String> {
            let m = els.len();
            (0..=l)
                .flat_map(|l| (0..m.pow(l)).map(move |i| (l, i)))
                .map(|(l, i)| if l == 0 { "#".to_string() } else { (0..l).map(|k| els[i / m.pow(k) % m]).collect::<Vec<_>>().join(" ") })
                .collect()
        };
        const ELS: [&str; 6] = ["\"a\"", "\"b\"", "\"\"", "d", "ws", "\"_\""];
        let mut bodies = seqs(&ELS, if q { 4 } else { 5 });
        let short = seqs(&ELS, 2);
        bodies.extend(short.iter().flat_map(|a| short.iter().map(move |b| format!("{a} | {b}"))));
        const WS: [&str; 5] = ["\"_\" ws | #", "\"_\"", "#", "\"_\" \"-\" | \"\"", "d \"_\" | \"=\""];
        let n = bodies.len() as u64;
        let ml = if q { 4 } else { 5 };
        families.push(family(
            "bodies",
            &format!("start with every alternative of up to {} elements out of {ELS:?}, and every pair of alternatives of up to 2; d; 5 ignorable rules ws; by directive, by override, exempted, by another override, with d exempted; the grammar read; building and all scripts up to {ml} (first 400) against the rules written out by hand", if q { 4 } else { 5 }),
            n * 25,
            move |i, st| {
                let (b, w, m) = (&bodies[(i / 25) as usize], WS[(i / 5 % 5) as usize], i % 5);
                let t = match m {
                    0 => format!("$IGNORE: ws; start -> {b}; d -> \"c\" \"c\" | \"d\"; ws -> {w};"),
                    1 => format!("ws -> {w}; d -> \"c\" \"c\"; start -> $[IGNORE:ws]{b};"),
                    2 => format!("ws -> {w}; $IGNORE: ws; start -> $[IGNORE:#]{b}; d -> \"c\" \"c\";"),
                    3 => format!("$IGNORE: ws; o -> \",\" ; start -> $[IGNORE:o] {b}; d -> \"c\" \"c\" | #; ws -> {w};"),
                    _ => format!("d -> \"c\" d \"c\" | #; $IGNORE: ws; start -> {b}; ws -> {w};"),
                };
                st.states += 1;
                st.sample(|| t.clone());
                match check_text(&t, true)? {
                    None => panic!("not well-formed: {t}"),
                    Some(f) => behave(&t, &f, ml, st),
                }
            },
        ));
        let nn = hx::big::NAMES.len();
        families.push(family(
            "names",
            &format!("{} files with ignorables x every pair of {nn} names (capitals, digits, underscores, one letter, other scripts) for the ignorable rule and for another; the grammar read and parsed with", hx::big::NAMED),
            (nn * nn * hx::big::NAMED) as u64,
            move |i, st| {
                let (i, k) = (i as usize / hx::big::NAMED, i as usize % hx::big::NAMED);
                let (v, w) = (hx::big::NAMES[i / nn], hx::big::NAMES[i % nn]);
                if v == w {
                    return Ok(());
                }
                let t = hx::big::named(k, v, w);
                st.states += 1;
                st.sample(|| t.clone());
                match check_text(&t, true)? {
                    None => panic!("not well-formed: {t}"),
                    Some(f) => behave(&t, &f, 5, st),
                }
            },
        ));
        families.push(hx::big::each("huge", "the grammar read; up to 7 scripts", |b, st| {
            st.traces += 1;
            check_text(&b.text, true)?;
            if b.ll1 {
                let mut p = catch(|| Parser::new_from_text(&b.text, &VM)).map_err(|e| format!("{e}\n{}", b.text))?;
                for (s, ok) in &b.scripts {
                    st.traces += 1;
                    let r = catch(|| p.parse(s, &mut 0usize).is_ok()).map_err(|e| format!("{e}\n{}\nscript {s:?}", b.text))?;
                    if r != *ok {
                        return Err(format!("accepted={r}, expected {ok}\n{}\nscript {s:?}", b.text));
                    }
                }
            }
            Ok(())
        }));
        let stand = '\u{e123}';
        let file = |c: char, k: usize| match k {
            0 => format!("$IGNORE: ws; start -> \"a\" \"b\" d | \"z\"; d -> $[IGNORE:#]\"e\" \"f\"; ws -> \"{c}\" ws | #;"),
            _ => format!("ws -> \"{c}\"; start -> $[IGNORE:ws] \"a\" d \"b\"; d -> \"x{c}\" \"y\";"),
        };
        const SCRIPTS: [&[&str]; 2] = [&["abef", "acbef", "accbcef", "abecf", "cabef", "abefc", "acb", "z", "cz", "zc", "ac", "abcef"], &["acxcycbc", "axcyb", "acxcycb", "acxycb", "acxcyb", "cacxcyb", "acxccycb", "ac", "acxcycbcc", "accxcycbc"]];
        let cases: Vec<Vec<langs::Case>> = (0..2)
            .map(|k| {
                let f = hx::refread::read(&file(stand, k).chars().collect::<Vec<_>>()).unwrap();
                let g = to_gram(&f.woven());
                let an = analyse(&g);
                assert!(an.ll1());
                SCRIPTS[k].iter().map(|s| langs::case_of(&g, &an, s.chars().map(|x| if x == 'c' { stand } else { x }).collect(), false)).collect()
            })
            .collect();
        families.push(family("every-character", "every Unicode character as what is ignored, by directive and by override; the grammar read, 22 scripts", hx::uni::CHUNKS, move |i, st| {
            for c in hx::uni::chars_of(i) {
                if "\"\\abdefxyz".contains(c) {
                    continue;
                }
                for k in 0..2 {
                    let t = file(c, k);
                    check_text(&t, true)?.ok_or("not well-formed").unwrap();
                    let scripts: Vec<String> = SCRIPTS[k].iter().map(|s| s.chars().map(|x| if x == 'c' { c } else { x }).collect()).collect();
                    let Ok(mut p) = catch(|| Parser::new_from_text(&t, &VM)) else {
                        return Err(format!("no parser is built\n{t}"));
                    };
                    st.states += 1;
                    for (w, s) in cases[k].iter().zip(&scripts) {
                        st.traces += 1;
                        st.transitions += s.len() as u64;
                        let r = catch(|| p.parse(s, &mut 0usize).is_ok()).map_err(|e| format!("{e}\n{t}\nscript {s:?}"))?;
                        if r != w.accept {
                            return Err(format!("script {s:?}: should be accepted={}, but accepted={r}\n{t}", w.accept));
                        }
                    }
                }
            }
            Ok(())
        }));
        Check {
            id: "C12",
            technique: "exhaustive bounded exploration of directive and override placements against a reference reader and hand-woven grammars",
            assumptions: vec!["an ignorable rule that is not defined, and repeated rules with different ignore settings, are left open".into()],
            families,
        }
    })
}
