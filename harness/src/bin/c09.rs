//! C09: a rule file means the grammar it spells, whatever its layout.
use henriks_parsing_project::parser_data::ElementVerbose;
use henriks_parsing_project::parser_data::ElementType;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::NullVm;
use hx::dump::*;
use hx::fam;
use hx::gram::*;
use hx::refread::{self, El, RefFile, RefRule};
use hx::run::*;
use hx::vmx::{describe, read_tree, root, LTree, TraceVm};

const WS: &[&str] = &["", " ", "\n", "\t", "\r\n", "  \n \n", "\u{a0}", "\u{2003}"];

/// Rule files as tokens; whitespace may stand between any two of them.
fn files() -> Vec<Vec<&'static str>> {
    vec![
        vec!["start", "->", "\"a\"", ";"],
        vec!["start", "->", "\"a\"", "\"b\"", "|", "#", ";"],
        vec!["start", "->", "#", "{", "1}", ";"],
        vec!["start", "->", "x", "\"x\"", "y", ";", "x", "->", "\"1\"", "|", "\"2\"", ";", "y", "->", "#", ";"],
        vec!["a", "->", "b", "c", "{", "2}", ";", "start", "->", "a", "|", "\"\\\"\"", ";", "b", "->", "\";\"", ";", "c", "->", "\"|#{\"", "c", "|", "#", ";"],
        vec!["start", "->", "\"a b\"", "|", "\"\n\"", "|", "\" \"", "|", "x", ";", "x", "->", "\"c\"", "{", "3}", ";"],
        vec!["x_1", "->", "x2", "x_2", ";", "x2", "->", "\"é\"", ";", "start", "->", "x_1", ";", "x_2", "->", "#", "|", "\"\\\\\"", ";"],
        vec!["start", "->", "\"q\"", ";", "a", "->", "\"start\"", ";", "start", "->", "a", ";", "a", "->", "\"w\"", "|", "#", ";"],
        vec!["$IGNORE", ":", "w", ";", "start", "->", "\"a\"", "\"b\"", ";", "w", "->", "\" \"", ";"],
        vec!["start", "->", "$[IGNORE", ":w]", "\"a\"", "\"b\"", ";", "w", "->", "$[IGNORE:#]", "\" \"", ";"],
        vec!["b", "->", "#", ";", "start", "->", "$[IGNORE", ":#]", "#", "|", "\"z\"", "b", ";"],
    ]
}
fn word(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_alphanumeric() || c == '_')
}
/// Which gaps need a separator: between two names.
fn lay(toks: &[&str], gaps: &[usize]) -> String {
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        let w = WS[gaps[i]];
        if w.is_empty() && word(o.chars().last()) && word(t.chars().next()) {
            o.push(' ');
        }
        o.push_str(w);
        o.push_str(t);
    }
    o.push_str(WS[gaps[toks.len()]]);
    o
}
fn check_layout(toks: &[&str], gaps: &[usize], base: &Dump, st: &mut Stat) -> Result<(), String> {
    let t = lay(toks, gaps);
    st.transitions += gaps.len() as u64;
    st.states += 1;
    st.traces += 1;
    let f = check_text(&t, true)?.ok_or_else(|| panic!("not well-formed: {t:?}")).unwrap();
    assert!(want(&f.woven()) == *base, "reference reader depends on layout: {t:?}");
    Ok(())
}

/// A text parser and a programmatically built one behave the same.
fn same_behaviour(g: &Gram, an: &An, text: &str, maxlen: usize, st: &mut Stat) -> Result<(), String> {
    let (d, ids) = g.to_data::<NullVm>(|_| vec![0]);
    let vm = NullVm::new();
    let mut p = match catch(|| Parser::new_from_text(text, &vm)) {
        Ok(p) => Some(p),
        Err(_) => None,
    };
    let vm2 = NullVm::new();
    let start = ids[g.start];
    let mut q = match catch(|| Parser::new_from_parser_data(d, start, &vm2)) {
        Ok(p) => Some(p),
        _ => None,
    };
    if p.is_some() != q.is_some() {
        return Err(format!(
            "a parser is {} from the text but {} from the same grammar built programmatically\n{text}",
            if p.is_some() { "built" } else { "refused" },
            if q.is_some() { "built" } else { "refused" }
        ));
    }
    let (Some(p), Some(q)) = (p.as_mut(), q.as_mut()) else { return Ok(()) };
    let sg = fam::sigma(g);
    let cases: Vec<(Vec<char>, String)> =
        probes(g, an, &sg, maxlen, 3000, false).into_iter().map(|c| (c.s.clone(), c.s.iter().collect())).collect();
    for (cs, s) in &cases {
        st.transitions += cs.len() as u64;
        st.traces += 1;
        let one = |r: Result<_, Panic>| -> Result<LTree, String> {
            let r: Result<_, henriks_parsing_project::errors::ParserError> = r.map_err(|e| e.to_string())?;
            read_tree(&r.map_err(|e| error_key(&e))?, root())
        };
        let a = one(catch(|| p.parse(s, &mut 0usize)));
        let b = one(catch(|| q.parse(s, &mut 0usize)));
        if a != b {
            return Err(format!("from text: {a:?}\nprogrammatic: {b:?}\n{text}\n{}", describe(g, cs)));
        }
    }
    Ok(())
}
fn error_key(e: &henriks_parsing_project::errors::ParserError) -> String {
    use henriks_parsing_project::errors::ParserError::*;
    match e {
        UnexpectedCharError { chr, pos, .. } => format!("unexpected {chr:?} at {pos}"),
        EndOfCharsError { pos } => format!("end at {pos}"),
        e => format!("{e}"),
    }
}

/// A generated grammar in a chosen spelling.
fn spell(g: &Gram, style: u64) -> String {
    if style == 3 {
        // one statement per alternative, alternatives of different rules interleaved
        let mut o = String::new();
        let most = g.rules.iter().map(|r| r.len()).max().unwrap_or(0);
        for k in 0..most {
            for &i in &g.order {
                if let Some(a) = g.rules[i].get(k) {
                    o.push_str(&format!("{} -> {};", g.nts[i], g.alt_text(a)));
                }
            }
        }
        return o;
    }
    let (arrow, or, end) = [(" -> ", " | ", ";\n"), ("->", "|", ";"), ("\n\t->\n", "\n   |  ", " \n;\n\n")][style as usize];
    let mut o = String::new();
    for &i in &g.order {
        if g.defined(i) {
            let alts: Vec<String> = g.rules[i]
                .iter()
                .map(|a| {
                    let mut t = String::new();
                    for (k, s) in a.iter().enumerate() {
                        let e = g.alt_text(&vec![*s]);
                        if k > 0 && (style != 1 || (matches!(s, Sym::N(_)) && matches!(a[k - 1], Sym::N(_)))) {
                            t.push(if style == 2 { '\n' } else { ' ' });
                        }
                        t += &e;
                    }
                    if a.is_empty() { "#".into() } else { t }
                })
                .collect();
            o += &format!("{}{arrow}{}{end}", g.nts[i], alts.join(or));
        }
    }
    o
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        // layouts
        let fs = files();
        let mut jobs = vec![];
        for (f, t) in fs.iter().enumerate() {
            for g in 0..=t.len() {
                jobs.push((f, g));
            }
        }
        families.push(family(
            "layouts",
            &format!("{} rule files: every choice out of {} kinds of whitespace (also none) for every pair of token gaps, the others empty, blank or newline{}", fs.len(), WS.len(), if q { "" } else { "; every triple of gaps" }),
            jobs.len() as u64,
            move |i, st| {
                let (f, g) = jobs[i as usize];
                let fs = files();
                let toks = &fs[f];
                let n = toks.len() + 1;
                let base = want(&refread::read(&lay(toks, &vec![1; n]).chars().collect::<Vec<_>>()).unwrap().woven());
                for rest in 0..3 {
                    let mut gaps = vec![rest; n];
                    for w in 0..WS.len() {
                        gaps[g] = w;
                        check_layout(toks, &gaps, &base, st)?;
                        for g2 in g + 1..n {
                            for w2 in 0..WS.len() {
                                gaps[g2] = w2;
                                check_layout(toks, &gaps, &base, st)?;
                                if !q {
                                    for g3 in g2 + 1..n {
                                        for w3 in 0..WS.len() {
                                            gaps[g3] = w3;
                                            check_layout(toks, &gaps, &base, st)?;
                                        }
                                        gaps[g3] = rest;
                                    }
                                }
                            }
                            gaps[g2] = rest;
                        }
                    }
                }
                st.sample(|| format!("layouts of {:?}, gap {g} and every other", lay(toks, &vec![1; n])));
                Ok(())
            },
        ));
        // long gaps
        let far: Vec<usize> = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097].into_iter().chain([65_535, 65_536, 65_537].into_iter().filter(|_| !q)).collect();
        let nf = far.len() as u64;
        families.push(family(
            "long-gaps",
            &format!("the same files with one gap, or all, of {nf} lengths around powers of two from 15 to {}, of each kind of whitespace; the others empty or blank", far.last().unwrap()),
            fs.iter().map(|t| t.len() as u64 + 2).sum::<u64>() * nf,
            move |i, st| {
                let (n, mut i) = (far[(i % nf) as usize], (i / nf) as usize);
                let mut f = 0;
                let fs = files();
                while i >= fs[f].len() + 2 {
                    i -= fs[f].len() + 2;
                    f += 1;
                }
                let toks = &fs[f];
                let base = want(&refread::read(&lay(toks, &vec![1; toks.len() + 1]).chars().collect::<Vec<_>>()).unwrap().woven());
                for w in &WS[1..] {
                    for rest in ["", " "] {
                        let mut o = String::new();
                        for (k, t) in toks.iter().chain([&""]).enumerate() {
                            if k == i || i == toks.len() + 1 && k % 2 == 0 {
                                (0..n).for_each(|_| o.push_str(w));
                            } else if rest.is_empty() && word(o.chars().last()) && word(t.chars().next()) {
                                o.push(' ');
                            } else {
                                o.push_str(rest);
                            }
                            o.push_str(t);
                        }
                        st.states += 1;
                        st.traces += 1;
                        st.transitions += toks.len() as u64;
                        let f = check_text(&o, true)?.unwrap_or_else(|| panic!("not well-formed: {o:?}"));
                        assert!(want(&f.woven()) == base, "reference reader depends on layout: {o:?}");
                    }
                }
                Ok(())
            },
        ));
        // all layouts of small files
        let small: Vec<(usize, u64)> = files().iter().enumerate().filter(|(_, t)| t.len() <= 9).map(|(i, t)| (i, 3u64.pow(t.len() as u32 + 1))).collect();
        let total: u64 = small.iter().map(|x| x.1).sum();
        families.push(family(
            "all-layouts",
            "every file of up to 9 tokens: none, blank or newline in every gap, all combinations",
            total,
            move |mut i, st| {
                let mut k = 0;
                while i >= small[k].1 {
                    i -= small[k].1;
                    k += 1;
                }
                let fs = files();
                let toks = &fs[small[k].0];
                let n = toks.len() + 1;
                let base = want(&refread::read(&lay(toks, &vec![1; n]).chars().collect::<Vec<_>>()).unwrap().woven());
                let mut gaps = vec![];
                for _ in 0..n {
                    gaps.push((i % 3) as usize);
                    i /= 3;
                }
                check_layout(toks, &gaps, &base, st)
            },
        ));
        // what stands between quotes
        let chars = ['a', '\\', '"', '#', '|', ';', '{', '}', ' ', '\n', '-', '>', '$', 'é', '日'];
        let len = if q { 4 } else { 5 };
        let c = chars.len() as u64;
        families.push(family(
            "terminals",
            &format!("all texts of up to {len} characters out of {c} between the quotes of a terminal, in two places of a rule"),
            (0..=len).map(|l| c.pow(l)).sum(),
            move |mut i, st| {
                let mut l = 0;
                while i >= c.pow(l) {
                    i -= c.pow(l);
                    l += 1;
                }
                let mut t = String::new();
                for _ in 0..l {
                    t.push(chars[(i % c) as usize]);
                    i /= c;
                }
                st.states += 1;
                st.traces += 1;
                let text = format!("start -> \"{t}\" a;a -> \"z\" \"{t}\"|#;");
                let r = check_text(&text, true)?;
                let one = RefFile {
                    rules: vec![
                        RefRule { name: "start".into(), alts: vec![vec![El::T(t.clone()), El::N("a".into())]], section: None, ignore: None },
                        RefRule { name: "a".into(), alts: vec![vec![El::T("z".into()), El::T(t.clone())], vec![]], section: None, ignore: None },
                    ],
                };
                if r.is_some_and(|f| want(&f.woven()) == want(&one.woven())) && !t.is_empty() {
                    st.count("single terminals");
                    // and it matches exactly that text
                    let vm = NullVm::new();
                    let mut p = catch(|| Parser::new_from_text(&text, &vm)).map_err(|e| format!("{e}\n{text}"))?;
                    let two = format!("{t}z{t}");
                    let cut = two[..two.char_indices().last().unwrap().0].to_string();
                    for (s, ok) in [(&t, true), (&two, true), (&cut, false)] {
                        let r = catch(|| p.parse(s, &mut 0usize).is_ok()).map_err(|e| format!("{e}\n{text}\nscript {s:?}"))?;
                        if r != ok {
                            return Err(format!("accepted={r}, expected {ok}\n{text}\nscript {s:?}"));
                        }
                    }
                }
                Ok(())
            },
        ));
        // statements about the same rules, in any order
        let stm: Vec<&str> = vec![
            "start -> \"s\" a;", "start -> \"t\";", "start -> #;", "a -> \"a\";", "a -> start \"b\"|\"c\";", "a -> \"start\";", "b -> a;", "b -> \"b\" {1};",
        ];
        let k = if q { 5 } else { 6 };
        let m = stm.len() as u64;
        families.push(family(
            "statements",
            &format!("all sequences of up to {k} statements out of {m} about three rules"),
            (0..=k).map(|l| m.pow(l)).sum(),
            move |mut i, st| {
                let mut l = 0;
                while i >= m.pow(l) {
                    i -= m.pow(l);
                    l += 1;
                }
                let mut t = String::new();
                for _ in 0..l {
                    t += stm[(i % m) as usize];
                    i /= m;
                }
                st.states += 1;
                st.traces += 1;
                check_text(&t, true)?;
                Ok(())
            },
        ));
        // generated grammars in four spellings, and the programmatic interface
        let mut gf = vec![fam::names(), fam::odd(), fam::two(3), fam::words(tier, 3), fam::one(tier, 3)];
        if !q {
            gf.push(fam::three(Tier::Quick, 3));
        }
        for f in gf {
            let mk = f.make.clone();
            families.push(family(
                &format!("spell-{}", f.name),
                &format!("{}; in four spellings and built programmatically", f.bound),
                f.n,
                move |i, st| {
                    let g = mk(i);
                    let an = analyse(&g);
                    for style in 0..4 {
                        let t = spell(&g, style);
                        st.states += 1;
                        st.traces += 1;
                        if check_text(&t, true)?.is_none() {
                            panic!("generated text is not well-formed: {t}");
                        }
                        if an.ll1() {
                            if style == 3 && (0..g.nts.len()).any(|r| !g.defined(r)) {
                                continue;
                            }
                            same_behaviour(&g, &an, &t, 3, st)?;
                        }
                    }
                    // programmatic: what is put in is what is there
                    let (d, _) = g.to_data::<TraceVm>(|_| vec![]);
                    let dd = dump(&d)?;
                    let w = want(&refread::read(&g.render().chars().collect::<Vec<_>>()).unwrap().woven());
                    if dd != w {
                        return Err(format!("built programmatically:\n{}from text:\n{}", show(&dd), show(&w)));
                    }
                    // same spelling, different kind
                    for t in &g.ts {
                        let e = ElementVerbose::new(t.clone(), ElementType::NonTerminal);
                        let clash = g.nts.contains(t);
                        if d.get_element_index(&e).is_some() != clash {
                            return Err(format!("terminal {t:?} is also known as a rule"));
                        }
                    }
                    Ok(())
                },
            ));
        }
        families.extend(hx::uni::texts("", hx::uni::HOLES, |t, st| {
            st.states += 1;
            st.traces += 1;
            st.transitions += t.len() as u64;
            st.count(if check_text(t, true)?.is_some() { "well-formed" } else { "malformed" });
            Ok(())
        }));
        families.push(hx::big::each("huge", "the grammar read; up to 7 scripts", |b, st| {
            st.traces += 1;
            if check_text(&b.text, true)?.is_none() {
                panic!("{} is not well-formed", b.what);
            }
            if !b.ll1 {
                return Ok(());
            }
            let vm = NullVm::new();
            let mut p = catch(|| Parser::new_from_text(&b.text, &vm)).map_err(|e| format!("{e}\n{}", b.text))?;
            for (s, ok) in &b.scripts {
                st.traces += 1;
                let r = catch(|| p.parse(s, &mut 0usize).is_ok()).map_err(|e| format!("{e}\n{}\nscript {s:?}", b.text))?;
                if r != *ok {
                    return Err(format!("accepted={r}, expected {ok}\n{}\nscript {s:?}", b.text));
                }
            }
            Ok(())
        }));
        Check {
            id: "C09",
            technique: "exhaustive bounded exploration of spellings (layouts, terminal texts, statement orders) against a reference reader and the programmatic interface",
            assumptions: vec!["ParserData's public fields are what the reader produces".into()],
            families,
        }
    })
}
