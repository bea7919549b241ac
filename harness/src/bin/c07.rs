//! C07: lookahead tables hold exactly the predict sets; steuer sets are exact.
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::Production;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::NullVm;
use hx::fam;
use hx::gram::*;
use hx::run::*;
use hx::sets::*;

fn decide(g: &Gram, st: &mut Stat) -> Result<(), String> {
    let an = analyse(g);
    if an.leftrec || an.undefined {
        st.skipped += 1;
        return Ok(());
    }
    let (mut d, ids) = g.to_data::<NullVm>(|_| vec![]);
    let tids: Vec<usize> = g.ts.iter().map(|t| d.get_or_add_terminal(t)).collect();
    let Ok(Ok(first)) = catch(|| get_first_sets(&d)) else { return Ok(()) };
    let Ok(Ok(follow)) = catch(|| get_follow_sets(ids[g.start], &first, &d)) else { return Ok(()) };
    let steuer = catch(|| get_steuer_sets(&first, &follow))
        .map_err(|e| format!("{e}\n{}", g.render()))?
        .map_err(|e| format!("steuer sets refused: {e}\n{}", g.render()))?;
    check_ne("steuer", g, &an, &ids, &steuer, |r| an.first[r] | if an.nullable[r] { an.follow[r] } else { 0 })?;
    st.states += g.nts.len() as u64;
    st.traces += 1;
    if an.conflict {
        return Ok(());
    }
    let Ok(Ok(maps)) = catch(|| get_steuermaps(&first, &follow, d)) else { return Ok(()) };
    for r in 0..g.nts.len() {
        if !g.defined(r) {
            continue;
        }
        let Some(m) = maps.get(&ids[r]) else { return Err(format!("no table for {}\n{}", g.nts[r], g.render())) };
        let mut n = 0;
        for (k, a) in g.rules[r].iter().enumerate() {
            let el: Vec<usize> = a
                .iter()
                .map(|x| match x {
                    Sym::T(t) => tids[*t],
                    Sym::N(n) => ids[*n],
                })
                .collect();
            for c in an.set_chars(an.predict[r][k]) {
                n += 1;
                st.transitions += 1;
                let got = m.steuermap.get(&henriks_parsing_project::sets::SetMember::from(c.as_ref()));
                let ok = match got.map(|p| &**p) {
                    Some(Production::NotEmpty(v)) => !el.is_empty() && *v == el,
                    Some(Production::Empty) => el.is_empty(),
                    None => false,
                };
                if !ok {
                    return Err(format!(
                        "on {c:?} the table of {} holds {:?}, expected the alternative {}\n{}",
                        g.nts[r],
                        got,
                        g.alt_text(a),
                        g.render()
                    ));
                }
            }
        }
        if m.steuermap.len() != n {
            return Err(format!(
                "the table of {} has {} entries {:?}, expected {n}\n{}",
                g.nts[r],
                m.steuermap.len(),
                m.steuermap.keys().map(m_ne).collect::<Vec<_>>(),
                g.render()
            ));
        }
    }
    st.count("LL(1) tables compared");
    st.sample(|| g.render().replace('\n', " "));
    Ok(())
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let mut fams = fam::standard(tier);
        fams.push(fam::ring(if q { 14 } else { 24 }));
        fams.last_mut().unwrap().name = "ring-long";
        fams.push(fam::chain(if q { 8 } else { 11 }));
        fams.last_mut().unwrap().name = "chain-long";
        for f in fams {
            let mk = f.make.clone();
            let b = f.bound.split("; scripts").next().unwrap().to_string();
            families.push(family(f.name, &b, f.n, move |i, st| decide(&mk(i), st)));
        }
        families.push(hx::uni::grams(decide));
        families.push(hx::huge::each_sets(|d, rules| {
            let first = get_first_sets(&d).map_err(|e| e.to_string())?;
            let follow = get_follow_sets(rules[0].id, &first, &d).map_err(|e| e.to_string())?;
            let steuer = get_steuer_sets(&first, &follow).map_err(|e| format!("steuer sets refused: {e}"))?;
            let maps = get_steuermaps(&first, &follow, d).map_err(|e| format!("tables refused: {e}"))?;
            for (k, r) in rules.iter().enumerate() {
                let mut want: std::collections::BTreeMap<String, &Vec<usize>> = Default::default();
                for (a, p) in &r.alts {
                    want.extend(p.iter().map(|c| (c.clone(), a)));
                }
                let keys = want.keys().cloned().collect();
                match steuer.get(&r.id) {
                    None => return Err(format!("no steuer set for rule {k}")),
                    Some(s) if got_ne(s) != keys => return Err(format!("the steuer set of rule {k} {}", hx::huge::diff(&got_ne(s), &keys))),
                    _ => {}
                }
                let Some(m) = maps.get(&r.id) else { return Err(format!("no table for rule {k}")) };
                let got: std::collections::BTreeSet<String> = m.steuermap.keys().map(m_ne).collect();
                if got != keys || m.steuermap.len() != got.len() {
                    return Err(format!("the table of rule {k} {}", hx::huge::diff(&got, &keys)));
                }
                for (c, p) in &m.steuermap {
                    let a = match &**p {
                        Production::NotEmpty(v) => v.clone(),
                        Production::Empty => vec![],
                    };
                    if a != *want[&m_ne(c)] {
                        return Err(format!("on {} the table of rule {k} holds {a:?}, expected {:?}", m_ne(c), want[&m_ne(c)]));
                    }
                }
            }
            Ok(())
        }));
        Check {
            id: "C07",
            technique: "exhaustive bounded exploration of grammars against textbook predict sets",
            assumptions: vec!["grammars beyond the stated bounds are not explored".into()],
            families,
        }
    })
}
