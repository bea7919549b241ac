//! C25: a refused grammar is refused for a reason that holds.
use henriks_parsing_project::errors::GrammarError;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::vms::NullVm;
use hx::fam;
use hx::gram::*;
use hx::run::*;

/// The first error of the stages, or none.
fn stages(d: ParserData<NullVm>, start: usize) -> Option<GrammarError> {
    let first = match get_first_sets(&d) {
        Ok(x) => x,
        Err(e) => return Some(e),
    };
    let follow = match get_follow_sets(start, &first, &d) {
        Ok(x) => x,
        Err(e) => return Some(e),
    };
    get_steuermaps(&first, &follow, d).err()
}
/// Whether what the error says is true of the grammar; `rule` gives the rule behind an index.
fn holds(g: &Gram, an: &An, e: &GrammarError, rule: &dyn Fn(usize) -> Option<usize>) -> Result<&'static str, String> {
    let missing = |ix: usize| -> Result<&'static str, String> {
        let r = rule(ix).ok_or(format!("it names {ix}, which is no rule"))?;
        let used = r == g.start || g.rules.iter().flatten().flatten().any(|s| *s == Sym::N(r));
        if g.defined(r) || !used {
            return Err(format!("it says that rule {} is missing, which is not so", g.nts[r]));
        }
        Ok("missing rule")
    };
    match e {
        GrammarError::LeftRecursion { index } => {
            let r = rule(*index).ok_or(format!("it names {index}, which is no rule"))?;
            if !an.selfrec[r] {
                return Err(format!("it says that rule {} is left-recursive, which is not so", g.nts[r]));
            }
            Ok("left recursion")
        }
        GrammarError::MissingProduction { index } | GrammarError::MissingFirstSet { index } => missing(*index),
        GrammarError::GraphNodeDoesNotExistsError { node_name } => missing(*node_name),
        GrammarError::SteuerSetsNotDistinct { steuer_char, rule_name, .. } => {
            let r = rule_name
                .parse::<usize>()
                .ok()
                .and_then(rule)
                .or(g.nts.iter().position(|n| n == rule_name))
                .ok_or(format!("it names rule {rule_name:?}, which there is not"))?;
            let mut what = vec![];
            if an.alpha.contains(steuer_char) {
                what.push(Some(*steuer_char));
            }
            if *steuer_char == '#' {
                what.push(None);
            }
            let shared = what.iter().any(|c| {
                let b = an.bit(*c);
                an.predict[r].iter().filter(|p| **p & b != 0).count() > 1
            });
            if !shared {
                return Err(format!("it says that alternatives of rule {} share {steuer_char:?}, which is not so", g.nts[r]));
            }
            Ok("shared lookahead")
        }
        e => Err(format!("it is {e:?}, which says nothing about the grammar")),
    }
}
fn decide(g: &Gram, st: &mut Stat) -> Result<(), String> {
    let an = analyse(g);
    st.states += 1;
    st.transitions += g.rules.iter().map(|r| r.len() as u64).sum::<u64>();
    if an.ll1() {
        st.count("LL(1)");
        return Ok(());
    }
    let say = |how: &str, e: &GrammarError, why: String| format!("{how}, this grammar is refused with {e:?}; but {why}\n{}", g.render());
    // programmatic
    let (d, ids) = g.to_data::<NullVm>(|_| vec![]);
    let start = ids[g.start];
    st.traces += 2;
    match catch(|| stages(d, start)).map_err(|p| format!("{p} for\n{}", g.render()))? {
        None => st.count("accepted (decided by C04)"),
        Some(e) => {
            let w = holds(g, &an, &e, &|ix| ids.iter().position(|x| *x == ix)).map_err(|w| say("programmatically built", &e, w))?;
            st.count(w);
        }
    }
    // read from text
    let text = g.render();
    let r = catch(|| -> Option<(GrammarError, Vec<Option<usize>>)> {
        let vm = NullVm::new();
        let mut pk = PeekableWrapper::from_str(&text);
        let mut rp = RuleParser::new(&mut pk, &vm);
        rp.parse_rules().ok()?;
        let d = rp.parser_data;
        let ids: Vec<Option<usize>> = g.nts.iter().map(|n| d.get_element_nt_index(n)).collect();
        let e = stages(d, ids[g.start]?)?;
        Some((e, ids))
    })
    .map_err(|p| format!("{p} for\n{text}"))?;
    if let Some((e, ids)) = r {
        holds(g, &an, &e, &|ix| ids.iter().position(|x| *x == Some(ix))).map_err(|w| say("read from text", &e, w))?;
    }
    st.sample(|| g.render().replace('\n', " "));
    Ok(())
}
/// Refused grammars: rules as (name, alternatives); what they are refused for: 'l' left recursion,
/// 'm' a rule missing, 'c' a shared lookahead; with the rules or characters it can be about.
const BEHIND: &[(&[(&str, &[&[&str]])], char, &[&str])] = &[
    (&[("s", &[&["'s", "p"]]), ("p", &[&["q", "'x"], &["'z"]]), ("q", &[&["p", "'y"]])], 'l', &["p", "q"]),
    (&[("s", &[&["'s", "p"]]), ("p", &[&["e", "p", "'x"], &["'z"]]), ("e", &[&[]])], 'l', &["p"]),
    (&[("s", &[&["'s", "p"]]), ("p", &[&["'z", "nil"]])], 'm', &["nil"]),
    (&[("s", &[&["nil", "p"]]), ("p", &[&["'z"]])], 'm', &["nil"]),
    (&[("s", &[&["'s", "p", "q"]]), ("p", &[&["'z"], &["'u", "q"]]), ("q", &[&["'v"], &["p"], &["'u"]])], 'c', &["q u"]),
    (&[("s", &[&["'s", "p", "'t"]]), ("p", &[&["'z"], &["'t"], &[]])], 'c', &["p t"]),
];
/// The grammar behind n terminals ("a", "b", "aa", …) or rules; `rules`: n rules as well as
/// elements.
fn behind(k: usize, n: usize, rules: bool, st: &mut Stat) -> Result<(), String> {
    let (g, why, about) = BEHIND[k];
    if rules && n > 33_000 {
        return Ok(());
    }
    let vm = NullVm::new();
    for how in ["programmatic", "text"] {
        st.traces += 1;
        st.transitions += n as u64;
        let mut text = String::new();
        let d = if how == "programmatic" {
            let mut d = ParserData::<NullVm>::new();
            for j in 0..n {
                if rules {
                    let r = d.get_or_add_non_terminal(&format!("r{j}"));
                    let t = d.get_or_add_terminal("é");
                    d.add_production(r, vec![t]);
                } else {
                    d.get_or_add_terminal(&format!("{}", char::from_u32(0x1_0000 + j as u32).unwrap()));
                }
            }
            for (name, alts) in g {
                let r = d.get_or_add_non_terminal(name);
                for a in *alts {
                    let v = a.iter().map(|e| match e.strip_prefix('\'') {
                        Some(t) => d.get_or_add_terminal(t),
                        None => d.get_or_add_non_terminal(e),
                    });
                    let v: Vec<usize> = v.collect();
                    d.add_production(r, v);
                }
            }
            d
        } else {
            for j in 0..n {
                if rules {
                    text.push_str(&format!("r{j} -> \"é\";"));
                } else {
                    text.push_str(if j == 0 { "r -> " } else { "|" });
                    text.push_str(&format!("\"{}\"", char::from_u32(0x1_0000 + j as u32).unwrap()));
                }
            }
            if !rules {
                text.push(';');
            }
            for (name, alts) in g {
                let alts: Vec<String> = alts
                    .iter()
                    .map(|a| if a.is_empty() { "#".into() } else { a.iter().map(|e| e.strip_prefix('\'').map(|t| format!("\"{t}\"")).unwrap_or(e.to_string())).collect::<Vec<_>>().join(" ") })
                    .collect();
                text.push_str(&format!("{name} -> {};", alts.join("|")));
            }
            let mut pk = PeekableWrapper::from_str(&text);
            let mut rp = RuleParser::new(&mut pk, &vm);
            if catch(|| rp.parse_rules().is_ok()).map_err(|p| p.to_string())? {
                rp.parser_data
            } else {
                return Ok(()); // C09's business
            }
        };
        let names: Vec<(usize, String)> = ["s", "p", "q", "e", "nil"].iter().filter_map(|n| d.get_element_nt_index(n).map(|i| (i, n.to_string()))).collect();
        let start = names[0].0;
        let name = |ix: usize| names.iter().find(|x| x.0 == ix).map(|x| x.1.clone()).unwrap_or(format!("number {ix}"));
        let Some(e) = catch(|| stages(d, start)).map_err(|p| format!("{p} for grammar {k} behind {n}"))? else {
            return Ok(()); // C04's business
        };
        let (kind, what) = match &e {
            GrammarError::LeftRecursion { index } => ('l', name(*index)),
            GrammarError::MissingProduction { index } | GrammarError::MissingFirstSet { index } => ('m', name(*index)),
            GrammarError::GraphNodeDoesNotExistsError { node_name } => ('m', name(*node_name)),
            GrammarError::SteuerSetsNotDistinct { steuer_char, rule_name, .. } => ('c', format!("{} {steuer_char}", rule_name.parse().map(&name).unwrap_or(rule_name.clone()))),
            _ => ('?', String::new()),
        };
        st.count(match kind { 'l' => "left recursion", 'm' => "missing rule", _ => "shared lookahead" });
        if kind != why || !about.contains(&what.as_str()) {
            return Err(format!("the grammar {g:?} behind {n} {} ({how}) is refused with {e:?} ({what}), but the reason is {why} {about:?}", if rules { "rules" } else { "terminals" }));
        }
    }
    Ok(())
}
fn main() {
    main_check(|tier| {
        let mut fams = vec![fam::undefined(), fam::hidden(), fam::positions()];
        fams.extend(fam::standard(tier));
        fams.push(fam::two_wide());
        let mut families: Vec<Family> = fams
            .into_iter()
            .map(|f| {
                let mk = f.make.clone();
                let b = f.bound.split("; scripts").next().unwrap().to_string();
                family(f.name, &b, f.n, move |i, st| decide(&mk(i), st))
            })
            .collect();
        let sizes: Vec<usize> = if tier == Tier::Quick { vec![127, 128, 255, 256, 300, 4096, 70_000] } else { hx::huge::SIZES.to_vec() };
        let nk = BEHIND.len() as u64;
        families.push(family(
            "behind",
            &format!("{nk} grammars that are refused, behind n other elements or rules, n={sizes:?}, programmatically and from text"),
            nk * 2 * sizes.len() as u64,
            move |i, st| {
                let n = sizes[(i / nk / 2) as usize];
                st.states += 1;
                behind((i / 2 % nk) as usize, n, i % 2 == 1, st)
            },
        ));
        Check {
            id: "C25",
            technique: "exhaustive bounded exploration of all grammars that are not LL(1): what the refusal says, against textbook sets",
            assumptions: vec![
                "grammars beyond the stated bounds are not explored".into(),
                "of several reasons, any may be given; '#' as lookahead may also stand for the end of the input".into(),
            ],
            families,
        }
    })
}
