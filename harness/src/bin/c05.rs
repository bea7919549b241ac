//! C05: FIRST sets are exact.
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::vms::NullVm;
use hx::fam;
use hx::gram::*;
use hx::run::*;
use hx::sets::*;

fn decide(g: &Gram, st: &mut Stat, seqlen: usize) -> Result<(), String> {
    let an = analyse(g);
    if an.leftrec || an.undefined {
        st.skipped += 1;
        return Ok(());
    }
    let (mut d, ids) = g.to_data::<NullVm>(|_| vec![]);
    let tids: Vec<usize> = g.ts.iter().map(|t| d.get_or_add_terminal(t)).collect();
    st.states += g.nts.len() as u64;
    st.traces += 1;
    let first = catch(|| get_first_sets(&d))
        .map_err(|e| format!("{e}\n{}", g.render()))?
        .map_err(|e| format!("FIRST sets refused: {e}\n{}", g.render()))?;
    check_first(g, &an, &ids, &first)?;
    st.sample(|| format!("{} | FIRST(start) = {:?}", g.render().replace('\n', " "), first.get(&ids[0]).map(got_we)));
    // every sequence of at most seqlen elements, and every suffix of every alternative
    let mut syms: Vec<Sym> = (0..g.nts.len()).map(Sym::N).collect();
    syms.extend((0..g.ts.len()).map(Sym::T));
    let mut seqs: Vec<Vec<Sym>> = fam::alts(&syms, seqlen).into_iter().filter(|s| !s.is_empty()).collect();
    for r in &g.rules {
        for a in r {
            for k in 0..a.len() {
                seqs.push(a[k..].to_vec());
            }
        }
    }
    for s in seqs {
        let el: Vec<usize> = s
            .iter()
            .map(|x| match x {
                Sym::T(t) => tids[*t],
                Sym::N(n) => ids[*n],
            })
            .collect();
        let got = catch(|| first_set_of_partial(&el, &first, &d))
            .map_err(|e| format!("{e}\n{}", g.render()))?
            .map_err(|e| format!("FIRST of {} refused: {e}\n{}", g.alt_text(&s), g.render()))?;
        let (f, nl) = an.seq(&s);
        st.transitions += 1;
        if got_we(&got) != want(&an, f, nl) {
            return Err(format!("FIRST({}) = {:?}, expected {:?}\n{}", g.alt_text(&s), got_we(&got), want(&an, f, nl), g.render()));
        }
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let mut fams = fam::standard(tier);
        fams.push(fam::chain(if q { 8 } else { 11 }));
        fams.last_mut().unwrap().name = "chain-long";
        for f in fams {
            let mk = f.make.clone();
            let small = matches!(f.name, "one" | "two" | "odd" | "names");
            let len = if small { if q { 2 } else { 3 } } else { 1 };
            let b = format!("{}; sequences of <={len} elements and all suffixes of alternatives", f.bound.split("; scripts").next().unwrap());
            families.push(family(f.name, &b, f.n, move |i, st| decide(&mk(i), st, len)));
        }
        families.push(hx::uni::grams(|g, st| decide(g, st, 1)));
        families.push(hx::huge::each_sets(|d, rules| {
            let first = get_first_sets(&d).map_err(|e| format!("FIRST sets refused: {e}"))?;
            for (k, r) in rules.iter().enumerate() {
                let Some(f) = first.get(&r.id) else { return Err(format!("no FIRST set for rule {k}")) };
                if got_we(f) != r.first {
                    return Err(format!("FIRST of rule {k} {}", hx::huge::diff(&got_we(f), &r.first)));
                }
            }
            Ok(())
        }));
        Check {
            id: "C05",
            technique: "exhaustive bounded exploration of grammars against the textbook least fixpoint",
            assumptions: vec!["grammars beyond the stated bounds are not explored".into()],
            families,
        }
    })
}
