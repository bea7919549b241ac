//! C24: parsing starts at the rule the parser was built for.
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::vms::NullVm;
use hx::fam;
use hx::gram::*;
use hx::run::*;
use hx::vmx::*;

/// Names for a grammar's rules: who, if anyone, is called 'start'.
fn namings(n: usize) -> Vec<Vec<String>> {
    let plain: Vec<&str> = ["A", "B", "C", "S", "T", "U", "V", "W", "X", "Y", "Z", "Q", "R", "P", "O", "L", "M", "K", "J", "H", "G", "F", "E", "D"].to_vec();
    let mut out = vec![];
    for s in 0..=n {
        out.push((0..n).map(|i| if i == s { "start".to_string() } else { plain[i % plain.len()].to_string() + &"_".repeat(i / plain.len()) }).collect());
    }
    // names close to it
    let near = ["start_", "Start", "starts", "tart", "star", "START", "sta"];
    if n <= near.len() {
        out.push((0..n).map(|i| near[i].to_string()).collect());
    }
    out
}

fn decide(g0: &Gram, maxlen: usize, st: &mut Stat) -> Result<(), String> {
    let n = g0.nts.len();
    for start in 0..n {
        let mut g = g0.clone();
        g.start = start;
        let an = analyse(&g);
        if !an.ll1() {
            st.skipped += 1;
            continue;
        }
        let ps = probes(&g, &an, &fam::sigma(&g), maxlen, 400, false);
        let names = namings(n);
        for (k, nm) in names.iter().enumerate() {
            g.nts = nm.clone();
            for turn in 0..n.min(3) {
                g.order = (0..n).map(|i| (i + turn) % n).collect();
                if k % 2 == 1 {
                    g.order.reverse();
                }
                one(&g, &ps, st)?;
            }
        }
    }
    Ok(())
}
fn texts(ps: &[Probe]) -> Vec<String> {
    ps.iter().map(|p| p.s.iter().collect()).collect()
}
fn one(g: &Gram, ps: &[Probe], st: &mut Stat) -> Result<(), String> {
    let scripts = texts(ps);
    let vm = NullVm::new();
    let mut state = 0usize;
    let mut ways: Vec<(&str, Parser<NullVm>)> = vec![];
    let (d, ids) = g.to_data::<NullVm>(|_| vec![]);
    match catch(|| Parser::new_from_parser_data(d, ids[g.start], &vm)) {
        Ok(p) => ways.push(("programmatic", p)),
        Err(e) => return Err(format!("no parser for the start rule {} is built: {e}\n{}", g.nts[g.start], g.render())),
    }
    let text = g.render();
    if g.nts[g.start] == "start" {
        match catch(|| Parser::new_from_text(&text, &vm)) {
            Ok(p) => ways.push(("text", p)),
            Err(e) => return Err(format!("no parser is built from the text: {e}\n{text}")),
        }
    }
    // the reader's result handed on, for any start rule
    let read = |text: &str| {
        let mut pk = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut pk, &vm);
        rp.parse_rules().unwrap();
        rp.parser_data
    };
    match catch(|| {
        let d = read(&text);
        let s = d.get_element_nt_index(&g.nts[g.start]).unwrap();
        Parser::new_from_parser_data(d, s, &vm)
    }) {
        Ok(p) => ways.push(("text read, then programmatic", p)),
        Err(e) => return Err(format!("no parser for the start rule {} is built from the text as read: {e}\n{text}", g.nts[g.start])),
    }
    // step by step, by the tables
    if g.nts[g.start] == "start" {
        let r = catch(|| {
            let (d, ids) = g.to_data::<NullVm>(|_| vec![]);
            let first = get_first_sets(&d).unwrap();
            let follow = get_follow_sets(ids[g.start], &first, &d).unwrap();
            let els = d.get_elements_verbose();
            Parser::new(get_steuermaps(&first, &follow, d).unwrap(), els, &vm)
        });
        match r {
            Ok(p) => ways.push(("tables", p)),
            Err(e) => return Err(format!("no parser is built from the tables: {e}\n{text}")),
        }
    }
    for (how, p) in ways.iter_mut() {
        for (pr, s) in ps.iter().zip(&scripts) {
            let r = catch(|| p.parse(s, &mut state)).map_err(|e| format!("{e}\n{}", describe(g, &pr.s)))?;
            st.transitions += 1;
            if r.is_ok() != pr.accept {
                return Err(format!(
                    "the start rule {} this script, but the parser ({how}) {} it\n{}",
                    if pr.accept { "generates" } else { "does not generate" },
                    if r.is_ok() { "accepts" } else { "rejects" },
                    describe(g, &pr.s)
                ));
            }
        }
        st.states += 1;
        st.traces += ps.len() as u64;
        st.count(how);
    }
    Ok(())
}

/// Rules k: name_k -> "<digit k>" name_{k+1} | "." in front of (0), around (1) or behind (2) n others.
fn behind(n: usize, rules: bool, place: usize, called: usize, st: &mut Stat) -> Result<(), String> {
    if rules && n > 33_000 {
        return Ok(());
    }
    let vm = NullVm::new();
    let names: Vec<String> = (0..4).map(|k| if k == called { "start".into() } else { format!("rule{k}") }).collect();
    let others = || {
        (0..n)
            .map(|j| {
                let c = char::from_u32(0x1_0000 + j as u32).unwrap();
                if rules {
                    format!("r{j} -> \"é\";")
                } else if j == 0 {
                    format!("r -> \"{c}\"")
                } else {
                    format!("|\"{c}\"{}", if j + 1 == n { ";" } else { "" })
                }
            })
            .collect::<String>()
    };
    // digits from t on, and a point
    let scripts: Vec<(String, usize)> = (0..24).map(|i| ((0..i / 4).map(|k| ((i + k) % 4).to_string()).collect::<String>() + ".", i % 4)).collect();
    let mut text = String::new();
    for k in 0..4 {
        if (place, k) == (1, 2) || (place, k) == (2, 0) {
            text += &others();
        }
        text += &format!("{} -> \"{k}\" {} | \".\";", names[k], names[(k + 1) % 4]);
    }
    if place == 0 {
        text += &others();
    }
    for s in 0..4 {
        for how in ["text", "text read, then programmatic", "programmatic"] {
            let p = catch(|| match how {
                "text" => {
                    if names[s] != "start" {
                        return None;
                    }
                    Some(Parser::new_from_text(&text, &vm))
                }
                "programmatic" => {
                    let mut d = henriks_parsing_project::parser_data::ParserData::<NullVm>::new();
                    let fill = |d: &mut henriks_parsing_project::parser_data::ParserData<NullVm>| {
                        for j in 0..n {
                            let t = d.get_or_add_terminal(&char::from_u32(0x1_0000 + j as u32).unwrap().to_string());
                            if rules {
                                let r = d.get_or_add_non_terminal(&format!("r{j}"));
                                d.add_production(r, vec![t]);
                            }
                        }
                    };
                    let mut ids = vec![];
                    for k in 0..4 {
                        if (place, k) == (1, 2) || (place, k) == (2, 0) {
                            fill(&mut d);
                        }
                        ids.push(d.get_or_add_non_terminal(&names[k]));
                    }
                    if place == 0 {
                        fill(&mut d);
                    }
                    for k in 0..4 {
                        let t = d.get_or_add_terminal(&k.to_string());
                        d.add_production(ids[k], vec![t, ids[(k + 1) % 4]]);
                        let t = d.get_or_add_terminal(".");
                        d.add_production(ids[k], vec![t]);
                    }
                    Some(Parser::new_from_parser_data(d, ids[s], &vm))
                }
                _ => {
                    let mut pk = PeekableWrapper::from_str(&text);
                    let mut rp = RuleParser::new(&mut pk, &vm);
                    rp.parse_rules().unwrap();
                    let ix = rp.parser_data.get_element_nt_index(&names[s]).unwrap();
                    Some(Parser::new_from_parser_data(rp.parser_data, ix, &vm))
                }
            })
            .map_err(|e| format!("no parser is built for {} next to {n} others ({how}): {e}", names[s]))?;
            let Some(mut p) = p else { continue };
            st.count(how);
            for (script, t) in &scripts {
                st.traces += 1;
                st.transitions += 1;
                let ok = script.len() == 1 || *t == s;
                let r = catch(|| p.parse(script, &mut 0usize).is_ok()).map_err(|e| format!("{e} on {script:?}"))?;
                if r != ok {
                    return Err(format!("rules {names:?} next to {n} others ({how}): started at {}, accepted={r} for {script:?}, expected {ok}", names[s]));
                }
            }
        }
    }
    Ok(())
}
fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let mut fams = vec![
            fam::two(if q { 3 } else { 4 }).forwards(),
            fam::chain(if q { 4 } else { 6 }),
            fam::ring(if q { 6 } else { 10 }),
            fam::odd(),
            fam::words(Tier::Quick, if q { 3 } else { 5 }).forwards(),
            fam::three(Tier::Quick, if q { 3 } else { 4 }).forwards(),
        ];
        for f in fams.drain(..) {
            let mk = f.make.clone();
            let ml = f.maxlen.min(if q { 4 } else { 5 });
            families.push(family(
                f.name,
                &format!(
                    "{}; every rule as the start rule, every rule or none called 'start', {} rule orders, by data and by text; scripts up to length {ml}",
                    f.bound.split("; scripts").next().unwrap(),
                    "up to 3"
                ),
                f.n,
                move |i, st| {
                    let g = mk(i);
                    st.sample(|| g.render().replace('\n', " "));
                    decide(&g, ml, st)
                },
            ));
        }
        let sizes: Vec<usize> = if q { vec![127, 128, 129, 255, 256, 257, 4096, 65_535, 65_536, 65_537, 70_000] } else { hx::huge::SIZES.to_vec() };
        families.push(family(
            "behind",
            &format!("four rules that could each be the start rule, one of them called 'start' or none, in front of, behind and between n other elements (terminals, or rules for n<33000), n={sizes:?}: every one of them as the start rule, from data and from text"),
            sizes.len() as u64 * 2 * 3 * 5,
            move |i, st| {
                let n = sizes[(i / 30) as usize];
                st.states += 1;
                behind(n, i % 2 == 1, (i / 2 % 3) as usize, (i / 6 % 5) as usize, st)
            },
        ));
        Check {
            id: "C24",
            technique: "exhaustive bounded exploration of (grammar, start rule, naming, order, script) against a chart oracle",
            assumptions: vec!["grammars and scripts beyond the stated bounds are not explored".into()],
            families,
        }
    })
}
