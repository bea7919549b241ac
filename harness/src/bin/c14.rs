//! C14: grammar processing is deterministic.
//!
//! Built twice: plainly, and (feature `ctl`, see check.sh) against a copy of the code under test
//! whose hash containers are `ctlstd`'s, so that the order of every iteration is an input that is
//! enumerated here.
use henriks_parsing_project::errors::ParserError::*;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{ElementType, ElementVerbose, Production};
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::NullVm;
use hx::fam;
use hx::gram::*;
use hx::real;
use hx::run::*;
use hx::sets::*;
use hx::vmx::*;
use std::collections::{BTreeMap, BTreeSet};

#[cfg(feature = "ctl")]
use ctlstd::control::on;
#[cfg(not(feature = "ctl"))]
fn on<R>(f: impl FnOnce() -> R) -> R {
    f()
}

/// What processing a grammar gives, rules written as their numbers in `names`.
#[derive(PartialEq, Eq, Debug, Clone)]
struct Outcome {
    /// None: refused
    sets: Option<BTreeMap<usize, [BTreeSet<String>; 3]>>,
    tables: Option<BTreeMap<usize, BTreeMap<String, String>>>,
    /// the parser from text; None: refused
    parses: Option<Vec<String>>,
    /// the parser from data
    data: Option<Option<Vec<String>>>,
}
fn diff(a: &Outcome, b: &Outcome) -> String {
    let part = |n: &str, x: String, y: String| if x != y { format!("{n}:\n   {x}\n   {y}\n") } else { String::new() };
    part("FIRST, FOLLOW, steuer sets", format!("{:?}", a.sets), format!("{:?}", b.sets))
        + &part("tables", format!("{:?}", a.tables), format!("{:?}", b.tables))
        + &part("parser from text", format!("{:?}", a.parses), format!("{:?}", b.parses))
        + &part("parser from data", format!("{:?}", a.data), format!("{:?}", b.data))
}

fn parse_all<'a>(mut p: Parser<'a, NullVm>, scripts: &'a [String]) -> Vec<String> {
    let mut state = 0usize;
    scripts
        .iter()
        .map(|s| match on(|| p.parse(s, &mut state)) {
            Ok(t) => read_tree(&t, root()).map(|t| t.show()).unwrap_or_else(|e| e),
            Err(UnexpectedCharError { chr, pos, .. }) => format!("unexpected {chr:?} at {pos}"),
            Err(EndOfCharsError { pos }) => format!("end at {pos}"),
            Err(_) => "other error".into(),
        })
        .collect()
}
fn element(e: Option<&ElementVerbose>, names: &[String]) -> String {
    match e {
        Some(e) if e.et == ElementType::NonTerminal => match names.iter().position(|n| *n == e.name) {
            Some(i) => format!("<{i}>"),
            None => format!("?{}", e.name),
        },
        Some(e) => format!("{:?}", e.name),
        None => "?".into(),
    }
}
fn tables(text: &str, names: &[String], start: &str) -> Option<(BTreeMap<usize, [BTreeSet<String>; 3]>, Option<BTreeMap<usize, BTreeMap<String, String>>>)> {
    let vm = NullVm::new();
    let mut pk = PeekableWrapper::from_str(text);
    let mut rp = RuleParser::new(&mut pk, &vm);
    on(|| rp.parse_rules()).ok()?;
    let d = rp.parser_data;
    let els = d.get_elements_verbose();
    let first = on(|| get_first_sets(&d)).ok()?;
    let s = d.get_element_nt_index(start)?;
    let follow = on(|| get_follow_sets(s, &first, &d)).ok()?;
    let steuer = on(|| get_steuer_sets(&first, &follow)).ok()?;
    let mut sets = BTreeMap::new();
    for (i, n) in names.iter().enumerate() {
        let k = d.get_element_nt_index(n)?;
        sets.insert(
            i,
            [
                first.get(&k).map(got_we).unwrap_or_default(),
                follow.get(&k).map(got_ne).unwrap_or_default(),
                steuer.get(&k).map(got_ne).unwrap_or_default(),
            ],
        );
    }
    let ids: Vec<usize> = names.iter().map(|n| d.get_element_nt_index(n).unwrap()).collect();
    let Ok(maps) = on(|| get_steuermaps(&first, &follow, d)) else { return Some((sets, None)) };
    let mut t = BTreeMap::new();
    for (i, k) in ids.iter().enumerate() {
        let mut row = BTreeMap::new();
        if let Some(m) = maps.get(k) {
            for (c, p) in m.steuermap.iter() {
                let txt = match &**p {
                    Production::Empty => "#".to_string(),
                    Production::NotEmpty(v) => v.iter().map(|x| element(els.get(*x), names)).collect::<Vec<_>>().join(" "),
                };
                row.insert(m_ne(c), txt);
            }
        }
        t.insert(i, row);
    }
    Some((sets, Some(t)))
}
/// `data`: also through the programmatic interface.
fn outcome(g: &Gram, text: &str, scripts: &[String], data: bool) -> Outcome {
    let r = catch(|| tables(text, &g.nts, &g.nts[g.start])).ok().flatten();
    let (sets, tabs) = match r {
        None => (None, None),
        Some((s, t)) => (Some(s), t),
    };
    let vm = NullVm::new();
    let parses = if g.nts[g.start] != "start" {
        None
    } else {
        catch(|| on(|| Parser::new_from_text(text, &vm))).ok().map(|p| parse_all(p, scripts))
    };
    let data = if data {
        let (d, ids) = g.to_data::<NullVm>(|_| vec![]);
        Some(catch(|| on(|| Parser::new_from_parser_data(d, ids[g.start], &vm))).ok().map(|p| parse_all(p, scripts)))
    } else {
        None
    };
    Outcome { sets, tables: tabs, parses, data }
}
fn scripts_of(g: &Gram, maxlen: usize, cap: usize) -> Vec<String> {
    let an = analyse(g);
    if !an.ll1() {
        return vec!["".into(), g.ts.first().cloned().unwrap_or_default()];
    }
    probes(g, &an, &fam::sigma(g), maxlen, cap, false).iter().map(|p| p.s.iter().collect()).collect()
}

// ------------------------------------------------ iteration orders

#[cfg(feature = "ctl")]
mod orders {
    use super::*;
    use ctlstd::control::{finish, start, Schedule};

    /// All executions with at most `dev` choices that are not insertion order, and all in which
    /// every container is seen in its k-th order.
    pub fn explore(g: &Gram, text: &str, scripts: &[String], data: bool, dev: usize, st: &mut Stat) -> Result<(), String> {
        let run = |s: Schedule| -> (Outcome, Option<Vec<u32>>) {
            beat_all();
            start(s);
            let o = outcome(g, text, scripts, data);
            (o, finish())
        };
        let (base, rec) = run(Schedule::Prefix(vec![]));
        let rec = rec.unwrap();
        // the execution is a function of the schedule
        let again = run(Schedule::Prefix(vec![]));
        assert!(again == (base.clone(), Some(rec.clone())), "the schedule does not determine the execution");
        st.states += 1;
        st.traces += 1;
        st.count(if base.tables.is_some() { "accepted grammars" } else { "refused grammars" });
        let report = |s: &str, o: &Outcome| {
            Err(format!("the outcome depends on the iteration order of hash containers ({s}); first and then:\n{}rule text:\n{text}", diff(&base, o)))
        };
        let mut maxalt = rec.iter().copied().max().unwrap_or(1).min(40);
        let mut k = 1;
        while k < maxalt {
            let (o, r) = run(Schedule::Uniform(k));
            st.states += 1;
            st.traces += 1;
            if o != base {
                return report(&format!("every container in its order no. {k}"), &o);
            }
            maxalt = maxalt.max(r.map(|r| r.into_iter().max().unwrap_or(1)).unwrap_or(1)).min(40);
            k += 1;
        }
        let mut stack: Vec<(Vec<u32>, usize)> = vec![];
        let mut push = |stack: &mut Vec<(Vec<u32>, usize)>, prefix: &[u32], rec: &[u32], used: usize, st: &mut Stat| {
            if used >= dev {
                return;
            }
            for i in prefix.len()..rec.len() {
                for alt in 1..rec[i] {
                    let mut p = prefix.to_vec();
                    p.resize(i, 0);
                    p.push(alt);
                    stack.push((p, used + 1));
                    st.transitions += 1;
                }
            }
        };
        push(&mut stack, &[], &rec, 0, st);
        st.count("executions with insertion order");
        while let Some((p, used)) = stack.pop() {
            let (o, r) = run(Schedule::Prefix(p.clone()));
            let r = r.expect("a schedule could not be replayed");
            st.states += 1;
            st.traces += 1;
            if o != base {
                return report(&format!("choices {p:?}, later ones insertion order"), &o);
            }
            push(&mut stack, &p, &r, used, st);
        }
        st.sample(|| format!("{} | {} containers iterated, choices at each: {rec:?}", text.trim().replace('\n', " "), rec.len()));
        Ok(())
    }
}

#[cfg(feature = "ctl")]
fn order_families(tier: Tier, families: &mut Vec<Family>) {
    let q = tier == Tier::Quick;
    let mut add = |f: fam::GFam, dev: usize, cap: usize| {
        let mk = f.make.clone();
        families.push(family(
            &format!("orders-{}", f.name),
            &format!(
                "{}; every execution with at most {dev} hash containers not iterated in insertion order, and all containers in their k-th order, k<40",
                f.bound.split("; scripts").next().unwrap()
            ),
            f.n,
            move |i, st| {
                let g = mk(i);
                let s = scripts_of(&g, 3, cap);
                orders::explore(&g, &g.render(), &s, true, dev, st)
            },
        ));
    };
    add(fam::two_small(3).forwards(), if q { 2 } else { 3 }, 20);
    add(fam::three_small(3).forwards(), if q { 1 } else { 2 }, 20);
    add(fam::two(3).forwards(), 1, 10);
    add(fam::chain(if q { 3 } else { 5 }), 1, 20);
    if !q {
        let mut c = fam::chain(3);
        c.name = "chain3";
        add(c, 2, 20);
    }
    add(fam::ring(if q { 4 } else { 6 }), 1, 20);
    add(fam::names(), 1, 20);
    if !q {
        add(fam::words(Tier::Quick, 3).forwards(), 1, 10);
        add(fam::three(Tier::Quick, 3).forwards(), 1, 10);
    }
    let top = if q { 12u64 } else { 20 };
    families.push(family(
        "orders-ignore",
        &format!("files of 1..{top} rules and three ignorable ones, with a directive in front or in the middle and overrides, 12 variants; every execution with at most 1 hash container not iterated in insertion order, and all containers in their k-th order, k<40"),
        top * 12,
        |i, st| {
            let (g, t, s) = ignoring(1 + (i / 12) as usize, i % 12);
            st.count(if analyse(&g).ll1() { "files with ignorable rules (LL(1))" } else { "files with ignorable rules (not LL(1))" });
            orders::explore(&g, &t, &s, false, 1, st)
        },
    ));
    let rs = real::real();
    families.push(family(
        "orders-realistic",
        "the realistic grammars; every execution with at most 1 hash container not iterated in insertion order, and all containers in their k-th order, k<40",
        rs.len() as u64,
        move |i, st| {
            let r = &real::real()[i as usize];
            let (g, _) = real::with_gram(r);
            orders::explore(&g, &r.text, &r.sentences, false, 1, st)
        },
    ));
}
/// Rule files with ignorable rules: `n` rules, directive and overrides by `v`.
fn ignoring(n: usize, v: u64) -> (Gram, String, Vec<String>) {
    let mut t = String::new();
    if v & 1 == 1 {
        t += "$IGNORE: ws;\n";
    }
    let body = |k: usize| {
        let next = if k + 1 < n { format!(" r{}", k + 1) } else { String::new() };
        match (k as u64 + v / 4) % 3 {
            0 => format!("\"({k}\"{next} \")\""),
            1 => format!("\"{}\"{next} | \"{}\"{}", char::from_u32(0x61 + k as u32).unwrap(), char::from_u32(0x430 + k as u32).unwrap(), if n % 5 == 4 { " | #" } else { "" }),
            _ => format!("\"{}\" \"x\"{next}", char::from_u32(0x41 + k as u32).unwrap()),
        }
    };
    t += &format!("start -> {}\"<\" r0 \">\";\n", if v & 2 == 2 { "$[IGNORE:#] " } else { "" });
    for k in 0..n {
        if v & 1 == 0 && k == n / 2 {
            t += "$IGNORE: ws;\n";
        }
        let o = match (k as u64 + v / 2) % 5 {
            1 => "$[IGNORE:#] ",
            3 => "$[IGNORE:ws2] ",
            _ => "",
        };
        t += &format!("r{k} -> {o}{};\n", body(k));
    }
    t += "ws -> \" \" ws | wt;\nwt -> \"\t\" wt | #;\nws2 -> \"~\" ws2 | #;\n";
    let g = hx::refread::gram_of(&t);
    let s = scripts_of(&g, 3, 10);
    (g, t, s)
}
#[cfg(not(feature = "ctl"))]
fn order_families(tier: Tier, families: &mut Vec<Family>) {
    // the order-controlled build was not possible: builds are only repeated
    for f in [fam::two_small(3).forwards(), fam::three_small(3).forwards(), fam::two(3).forwards(), fam::chain(4), fam::ring(6), fam::names()] {
        let mk = f.make.clone();
        let n = if tier == Tier::Quick { 8 } else { 40 };
        families.push(family(
            &format!("repeated-{}", f.name),
            &format!("{}; built {n} times (fallback: iteration orders are sampled, not enumerated)", f.bound.split("; scripts").next().unwrap()),
            f.n,
            move |i, st| {
                let g = mk(i);
                let s = scripts_of(&g, 3, 20);
                let text = g.render();
                let base = outcome(&g, &text, &s, true);
                st.count("repeated builds");
                for _ in 1..n {
                    let o = outcome(&g, &text, &s, true);
                    st.states += 1;
                    st.traces += 1;
                    if o != base {
                        return Err(format!("building the same grammar again gives another outcome; first and then:\n{}rule text:\n{text}", diff(&base, &o)));
                    }
                }
                Ok(())
            },
        ));
    }
}

// ------------------------------------------------ rule orders and names

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n > 4 {
        // rotations, their reverses, neighbours exchanged
        let mut v = vec![];
        for k in 0..n {
            let mut p: Vec<usize> = (0..n).collect();
            p.rotate_left(k);
            v.push(p.clone());
            p.reverse();
            v.push(p);
            if k + 1 < n {
                let mut p: Vec<usize> = (0..n).collect();
                p.swap(k, k + 1);
                v.push(p);
            }
        }
        return v;
    }
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| (0..n).filter(|x| !p.contains(x)).map(|x| [p.clone(), vec![x]].concat()).collect::<Vec<_>>())
            .collect();
    }
    out
}
const POOLS: &[&[&str]] = &[&["A", "B", "C", "D"], &["zz", "y", "xx", "w"], &["starts", "star", "Start", "start_"], &["a", "b", "ab", "c"], &["ø", "日本", "é", "ß"], &["IGNORE", "x1", "x_1", "x11"]];
fn written(g0: &Gram, maxlen: usize, cap: usize, st: &mut Stat) -> Result<(), String> {
    let n = g0.nts.len();
    let mut base_g = g0.clone();
    base_g.order = (0..n).collect();
    let scripts = scripts_of(&base_g, maxlen, cap);
    let base = outcome(&base_g, &base_g.render(), &scripts, true);
    st.count(if base.tables.is_some() { "accepted grammars" } else { "refused grammars" });
    let mut one = |g: &Gram, full: bool| -> Result<(), String> {
        let o = outcome(g, &g.render(), &scripts, true);
        st.states += 1;
        st.traces += 1;
        st.transitions += scripts.len() as u64;
        let same = if full { o == base } else { o.sets == base.sets && o.tables == base.tables && o.data == base.data };
        if !same {
            return Err(format!("the outcome depends on the order or the names of the rules; first and then:\n{}rule texts:\n{}----\n{}", diff(&base, &o), base_g.render(), g.render()));
        }
        Ok(())
    };
    for p in perms(n) {
        let mut g = base_g.clone();
        g.order = p.clone();
        one(&g, true)?;
        // the same order of names, other names; the start rule keeps its own
        if n <= 5 {
            let others: Vec<usize> = (0..n).filter(|i| *i != g.start).collect();
            for (k, pool) in POOLS.iter().enumerate() {
                for rot in 0..others.len() {
                    if (k + rot) % 2 == 1 && g.order != base_g.order {
                        continue; // in the other orders half of the names
                    }
                    let mut h = g.clone();
                    for (j, &i) in others.iter().enumerate() {
                        h.nts[i] = pool[(j + rot) % others.len().max(1) % pool.len()].to_string();
                    }
                    one(&h, true)?;
                }
            }
        }
    }
    // the start rule under another name, for the programmatic interface
    for name in ["Z", "A0", "sTart"] {
        let mut h = base_g.clone();
        let s = h.start;
        h.nts[s] = name.into();
        one(&h, false)?;
    }
    Ok(())
}

/// A file with ignorables (statements without their ';'), its rule names in the order of `nts`: the
/// same under every order of the statements between two directives. No rule may be stated twice.
fn reorderings(stm: &[String]) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![vec![]];
    for block in stm.split_inclusive(|s| s.trim_start().starts_with('$')) {
        let (rules, dir) = match block.last() {
            Some(d) if d.trim_start().starts_with('$') => (&block[..block.len() - 1], Some(d)),
            _ => (block, None),
        };
        out = out
            .into_iter()
            .flat_map(|o| {
                perms(rules.len()).into_iter().map(move |p| {
                    let mut o = o.clone();
                    o.extend(p.into_iter().map(|k| rules[k].clone()));
                    o.extend(dir.cloned());
                    o
                })
            })
            .collect();
    }
    out
}
fn same(what: &str, a: &Outcome, b: &Outcome, ta: &str, tb: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    Err(format!("the outcome depends on {what}; first and then:\n{}rule texts:\n{ta}\n----\n{tb}", diff(a, b)))
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        order_families(tier, &mut families);
        let mut fams = vec![fam::two(3).forwards(), fam::three_small(3).forwards(), fam::chain(if q { 4 } else { 7 }), fam::ring(if q { 6 } else { 12 }), fam::words(Tier::Quick, 3).forwards()];
        if !q {
            fams.push(fam::three(Tier::Quick, 3).forwards());
        }
        for f in fams {
            let mk = f.make.clone();
            families.push(family(
                &format!("written-{}", f.name),
                &format!("{}; every order of writing the rules (more than 4 rules: rotations, reversals, exchanges of neighbours) and systematic renamings", f.bound.split("; scripts").next().unwrap()),
                f.n,
                move |i, st| written(&mk(i), 3, if q { 15 } else { 40 }, st),
            ));
        }
        let nn = hx::big::NAMES.len();
        families.push(family(
            "written-names",
            &format!("{} files with ignorables x every pair of {nn} names (capitals, digits, underscores, one letter, other scripts) for the ignorable rule and for another: as with plain names", hx::big::NAMED),
            (nn * nn * hx::big::NAMED) as u64,
            move |i, st| {
                let (i, k) = (i as usize / hx::big::NAMED, i as usize % hx::big::NAMED);
                let (v, w) = (hx::big::NAMES[i / nn], hx::big::NAMES[i % nn]);
                if v == w {
                    return Ok(());
                }
                let t0 = hx::big::named(k, "plain", "other");
                let g = hx::refread::gram_of(&t0);
                let s = scripts_of(&g, 4, 60);
                let a = outcome(&g, &t0, &s, false);
                let t = hx::big::named(k, v, w);
                let mut h = g.clone();
                h.nts.iter_mut().for_each(|n| {
                    *n = match n.as_str() {
                        "plain" => v.into(),
                        "other" => w.into(),
                        n => n.to_string(),
                    }
                });
                let b = outcome(&h, &t, &s, false);
                st.states += 1;
                st.traces += 1;
                st.transitions += s.len() as u64;
                st.count(if a.tables.is_some() { "accepted grammars" } else { "refused grammars" });
                same("the names of the rules", &a, &b, &t0, &t)
            },
        ));
        let top = if q { 12u64 } else { 40 };
        families.push(family(
            "written-ignorables",
            &format!("files of 1..{top} rules and three ignorable ones, with a directive in front or in the middle and overrides, 12 variants, and {} smaller ones: the rules between two directives in every order (more than 4 rules: rotations, reversals, exchanges of neighbours), and renamed", hx::big::NAMED - 1),
            top * 12 + hx::big::NAMED as u64 - 1,
            move |i, st| {
                let (g, t, s) = if i < top * 12 {
                    ignoring(1 + (i / 12) as usize, i % 12)
                } else {
                    let t = hx::big::named((i - top * 12) as usize, "plain", "other");
                    let g = hx::refread::gram_of(&t);
                    let s = scripts_of(&g, 4, 60);
                    (g, t, s)
                };
                let a = outcome(&g, &t, &s, false);
                st.count(if a.tables.is_some() { "accepted grammars" } else { "refused grammars" });
                let stm: Vec<String> = t.split_inclusive(';').map(|x| x.to_string()).filter(|x| !x.trim().is_empty()).collect();
                for o in reorderings(&stm) {
                    let t2 = o.concat();
                    let b = outcome(&g, &t2, &s, false);
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += s.len() as u64;
                    same("the order of the rules", &a, &b, &t, &t2)?;
                }
                // renamed: every rule name but start's in another shape
                let shapes: &[&dyn Fn(usize, &str) -> String] = &[
                    &|_, n| n.to_uppercase(),
                    &|_, n| format!("{n}_"),
                    &|k, _| hx::big::NAMES[k % nn].to_string() + &"x".repeat(k / nn),
                    &|k, _| format!("n{}", 1000 - k),
                    &|k, _| "é".repeat(k + 1),
                    &|k, n| format!("start{k}_{n}"),
                ];
                for f in shapes {
                    let map: Vec<(String, String)> = g.nts.iter().enumerate().filter(|(_, n)| *n != "start").map(|(k, n)| (n.clone(), f(k, n))).collect();
                    let to = |n: &str| map.iter().find(|m| m.0 == n).map(|m| m.1.clone());
                    // names outside terminals
                    let mut t2 = String::new();
                    for (k, part) in t.split('"').enumerate() {
                        if k > 0 {
                            t2.push('"');
                        }
                        if k % 2 == 1 {
                            t2 += part;
                            continue;
                        }
                        let mut word = String::new();
                        for c in part.chars().chain(['\u{0}']) {
                            if c.is_alphanumeric() || c == '_' {
                                word.push(c);
                                continue;
                            }
                            t2 += &to(&word).unwrap_or(word.clone());
                            word.clear();
                            if c != '\u{0}' {
                                t2.push(c);
                            }
                        }
                    }
                    let mut h = g.clone();
                    h.nts.iter_mut().for_each(|n| *n = to(n).unwrap_or(n.clone()));
                    let b = outcome(&h, &t2, &s, false);
                    st.states += 1;
                    st.traces += 1;
                    same("the names of the rules", &a, &b, &t, &t2)?;
                }
                Ok(())
            },
        ));
        let rs = real::real();
        families.push(family("written-realistic", "the realistic grammars in rotated, reversed and exchanged rule orders", rs.len() as u64, |i, st| {
            let r = &real::real()[i as usize];
            let (g, _) = real::with_gram(r);
            let mut h = g.clone();
            h.order = (0..g.nts.len()).collect();
            written(&h, 2, 200, st)
        }));
        Check {
            id: "C14",
            technique: "exhaustive exploration of the iteration orders of the hash containers (deviation-bounded, under a controlled collections library) and of rule orders and names",
            assumptions: vec![
                if cfg!(feature = "ctl") {
                    "the code under test is compiled from a copy in which std:: is replaced by ctlstd::, whose hash containers are seen in any order as long as they are unchanged".into()
                } else {
                    "FALLBACK: the order-controlled build failed, iteration orders are only sampled by repeated builds".into()
                },
                "which of several reasons a refusal names, and the order of the expected characters in messages, are left open".into(),
            ],
            families,
        }
    })
}
