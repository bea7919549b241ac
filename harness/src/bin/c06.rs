//! C06: FOLLOW sets are exact, for every start rule.
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::vms::NullVm;
use hx::fam;
use hx::gram::*;
use hx::run::*;
use hx::sets::*;

fn decide(g: &Gram, st: &mut Stat, starts: usize) -> Result<(), String> {
    let an0 = analyse(g);
    if an0.leftrec || an0.undefined {
        st.skipped += 1;
        return Ok(());
    }
    let (d, ids) = g.to_data::<NullVm>(|_| vec![]);
    let Ok(Ok(first)) = catch(|| get_first_sets(&d)) else { return Ok(()) };
    if check_first(g, &an0, &ids, &first).is_err() {
        return Ok(()); // C05's business
    }
    for s in 0..g.nts.len().min(starts) {
        let mut g2 = g.clone();
        g2.start = s;
        let an = analyse(&g2);
        st.states += g.nts.len() as u64;
        st.transitions += g.rules.iter().flatten().map(|a| a.len() as u64).sum::<u64>();
        st.traces += 1;
        let follow = catch(|| get_follow_sets(ids[s], &first, &d))
            .map_err(|e| format!("{e}\n{}", g.render()))?
            .map_err(|e| format!("FOLLOW sets refused: {e}\n{}", g.render()))?;
        check_ne("FOLLOW", &g2, &an, &ids, &follow, |r| an.follow[r])?;
        st.sample(|| format!("{} | FOLLOW of last rule = {:?}", g.render().replace('\n', " "), follow.get(ids.last().unwrap()).map(got_ne)));
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let mut fams = fam::standard(tier);
        fams.push(fam::ring(if q { 16 } else { 24 }));
        fams.last_mut().unwrap().name = "ring-long";
        fams.push(fam::chain(if q { 8 } else { 11 }));
        fams.last_mut().unwrap().name = "chain-long";
        for f in fams {
            let mk = f.make.clone();
            let b = format!("{}; every rule as start rule", f.bound.split("; scripts").next().unwrap());
            families.push(family(f.name, &b, f.n, move |i, st| decide(&mk(i), st, usize::MAX)));
        }
        families.push(hx::uni::grams(|g, st| decide(g, st, usize::MAX)));
        families.push(hx::huge::each_sets(|d, rules| {
            let first = get_first_sets(&d).map_err(|e| e.to_string())?;
            let follow = get_follow_sets(rules[0].id, &first, &d).map_err(|e| format!("FOLLOW sets refused: {e}"))?;
            for (k, r) in rules.iter().enumerate() {
                let Some(f) = follow.get(&r.id) else { return Err(format!("no FOLLOW set for rule {k}")) };
                if got_ne(f) != r.follow {
                    return Err(format!("FOLLOW of rule {k} {}", hx::huge::diff(&got_ne(f), &r.follow)));
                }
            }
            Ok(())
        }));
        Check {
            id: "C06",
            technique: "exhaustive bounded exploration of (grammar, start rule) against the textbook least fixpoint",
            assumptions: vec!["FIRST sets are those the library computes, when exact (else C05 reports)".into()],
            families,
        }
    })
}
