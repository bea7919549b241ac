//! C08: actions run once per completed rule, bottom-up, on the finished node.
use henriks_parsing_project::script_parser::Parser;
use hx::gram::*;
use hx::langs::{self, Subject};
use hx::run::*;
use hx::vmx::*;

fn ninst(g: &Gram, r: usize) -> usize {
    match &g.acts[r] {
        None => 0,
        Some(t) => t.trim().parse().unwrap_or(1),
    }
}
fn expect(g: &Gram, t: &DTree, path: &mut Vec<usize>, out: &mut Vec<Event>) {
    if let DTree::Node(r, kids) = t {
        for (k, c) in kids.iter().enumerate() {
            path.push(k);
            expect(g, c, path, out);
            path.pop();
        }
        for k in 0..ninst(g, *r) {
            out.push(Event { rule: g.nts[*r].clone(), k, subtree: LTree::of(t), path: path.clone() });
        }
    }
}
fn leaves(t: &LTree, o: &mut String) {
    o.push_str(&t.data);
    t.kids.iter().for_each(|k| leaves(k, o));
}
fn decide(s: &Subject, st: &mut Stat) -> Result<(), String> {
    let vm = TraceVm::default();
    let Ok(mut p) = catch(|| Parser::new_from_text(&s.text, &vm)) else {
        st.skipped += 1;
        return Ok(());
    };
    // the same grammar with the same instructions through the programmatic interface
    let vm2 = TraceVm::default();
    let (d, ids) = s.g.to_data::<TraceVm>(|r| (0..ninst(&s.g, r)).map(|k| TraceInst { rule: s.g.nts[r].clone(), k }).collect());
    let mut p2 = match catch(|| Parser::new_from_parser_data(d, ids[s.g.start], &vm2)) {
        Ok(p) => p,
        Err(e) => return Err(format!("the programmatic interface refuses the grammar: {e}\n{}", s.text)),
    };
    let sentinel = Event { rule: "sentinel".into(), k: 7, subtree: LTree { data: "".into(), kids: vec![] }, path: vec![] };
    for c in &s.cases {
        let mut state = vec![sentinel.clone()];
        let r = match catch(|| p.parse(&c.text, &mut state)) {
            Ok(r) => r,
            Err(e) => return Err(format!("{e}\n{}\n{}", s.text, describe(&s.g, &c.s))),
        };
        if r.is_ok() != c.accept {
            continue;
        }
        st.traces += 1;
        if state.is_empty() || state[0] != sentinel {
            return Err("the caller's state was replaced".into());
        }
        let mut state2 = vec![sentinel.clone()];
        match catch(|| p2.parse(&c.text, &mut state2)) {
            Err(e) => return Err(format!("{e}\n{}\n{}", s.text, describe(&s.g, &c.s))),
            Ok(r2) if r2.is_ok() == r.is_ok() && state2 != state => {
                return Err(format!("with instructions attached through the programmatic interface other actions run:\n {state2:?}\n {state:?}\n{}", describe(&s.g, &c.s)));
            }
            _ => {}
        }
        let got = &state[1..];
        let m = machine(&s.g, &s.an, &c.s);
        assert_eq!(m.error.is_none(), c.accept);
        let fail = |why: &str| {
            Err(format!(
                "{why}\nactions run (rule#instruction@path subtree):\n  {}\n{}\n{}",
                got.iter().map(|e| format!("{}#{}@{:?} {}", e.rule, e.k, e.path, e.subtree.show())).collect::<Vec<_>>().join("\n  "),
                s.text,
                describe(&s.g, &c.s)
            ))
        };
        // which actions, in which order
        let mut seq = vec![];
        for (r, a, b) in &m.completed {
            for k in 0..ninst(&s.g, *r) {
                seq.push((*r, k, *a, *b));
            }
        }
        if got.len() != seq.len() || got.iter().zip(&seq).any(|(e, x)| e.rule != s.g.nts[x.0] || e.k != x.1) {
            let w: Vec<String> = seq.iter().map(|x| format!("{}#{}", s.g.nts[x.0], x.1)).collect();
            return fail(&format!("expected actions {w:?}"));
        }
        for (e, x) in got.iter().zip(&seq) {
            let mut text = String::new();
            leaves(&e.subtree, &mut text);
            if text != c.s[x.2..x.3].iter().collect::<String>() {
                return fail(&format!("the node given to {}#{} does not cover {:?}", e.rule, e.k, &c.s[x.2..x.3]));
            }
        }
        if let Some(t) = &c.tree {
            let mut want = vec![];
            expect(&s.g, t, &mut vec![], &mut want);
            if got != want {
                return fail("an action was given the wrong node or an unfinished subtree");
            }
        }
        if !got.is_empty() {
            st.count(if c.accept { "accepted scripts with actions" } else { "rejected scripts with actions" });
        }
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let mut families = langs::families(tier, true, true, |_| true, hx::fam::standard(tier), decide);
        // a second assignment of sections to rules
        for off in [1u64, 2] {
            let f = hx::fam::two(if tier == Tier::Quick { 4 } else { 6 });
            let mk = f.make.clone();
            families.push(family(&format!("two-acts{off}"), &f.bound, f.n, move |i, st| {
                let mut g = mk(i);
                let an = analyse(&g);
                if !an.ll1() {
                    st.skipped += 1;
                    return Ok(());
                }
                langs::put_acts(&mut g, i / 5 + off);
                let sg = hx::fam::sigma(&g);
                let cases: Vec<langs::Case> = probes(&g, &an, &sg, 4, 20_000, true).into_iter().map(|p| p.into()).collect();
                st.states += cases.len() as u64;
                let sub = Subject { text: g.render(), g, an, cases };
                decide(&sub, st)
            }));
        }
        // how many instructions
        let top = if tier == Tier::Quick { 70u64 } else { 300 };
        let sizes: Vec<u64> = (0..=top).chain((7..=16u32).flat_map(|k| (1u64 << k) - 1..=(1 << k) + 1).chain([500, 1000, 1001, 10_000, 100_000]).filter(|n| *n > top)).collect();
        families.push(family(
            "counts",
            &format!("4 grammars, 0..{top} instructions, and numbers around powers of two up to 65537 and 100000, on the start rule, on a rule used once, on a repeated rule, on a rule that can be empty, or on all of them; all scripts up to length 4 (2 for more than 1025 instructions)"),
            sizes.len() as u64 * 5 * 4,
            move |i, st| {
                let (n, i) = (sizes[(i / 20) as usize], i % 20);
                let text = [
                    "start -> \"a\" b | #; b -> c \"b\" c | \"c\" start; c -> \"c\" | #;",
                    "start -> b start \"b\" | \"c\"; b -> c c; c -> \"a\" | #;",
                    "b -> \"b\" b | #; c -> b \"c\"; start -> \"a\" c c;",
                    "start -> #; b -> start; c -> b;",
                ][i as usize % 4];
                let mut g = hx::refread::gram_of(text);
                let an = analyse(&g);
                if !an.ll1() {
                    st.skipped += 1;
                    return Ok(());
                }
                let which = i as usize / 4;
                for r in 0..g.nts.len() {
                    if which == r || which == 4 {
                        g.acts[r] = Some(n.to_string());
                    } else if which == 3 && r == 1 {
                        g.acts[r] = Some((n % 7).to_string());
                    }
                }
                let sg = hx::fam::sigma(&g);
                let cases: Vec<langs::Case> = probes(&g, &an, &sg, if n > 1025 { 2 } else { 4 }, 20_000, true).into_iter().map(|p| p.into()).collect();
                st.states += cases.len() as u64;
                let sub = Subject { text: g.render(), g, an, cases };
                decide(&sub, st)
            },
        ));
        // actions of rules with something put between their elements
        const BODIES: &[[&str; 3]] = &[
            ["\"a\" d \"b\" | \"c\"", "\"d\" \"e\" | #", "\"_\" ws | #"],
            ["d d \"a\"", "\"d\" ws \"e\"", "\"_\""],
            ["\"a\" \"b\" | d start", "\"d\" ws | \"_\"", "o o \"!\" | #"],
            ["\"a\" \"b\" \"a\"", "start ws", "\"_\" d | #"],
            ["ws d ws", "\"d\" | \"e\" \"d\"", "#"],
            ["d | \"a\" \"b\"", "\"d\" \"e\" \"f\"", "o \"_\" o | \"=\""],
        ];
        const SECT: [&str; 3] = ["", "{1}", " { 3 } "];
        const IGN: [&str; 3] = ["", "$[IGNORE:#] ", "$[IGNORE:o]"];
        families.push(family(
            "ignorables",
            &format!("{} files of start, d, ws and o: every choice of a section of none, one or three instructions on the first three x of ignoring as the directive says, nothing or o for each x the directive at one of 5 places or not at all x 4 orders of the rules, x start or d stated once or twice; all scripts up to length 4 (first 300)", BODIES.len()),
            BODIES.len() as u64 * 27 * 27 * 6 * 4 * 3,
            |mut i, st| {
                let mut next = |n: usize| {
                    let k = (i % n as u64) as usize;
                    i /= n as u64;
                    k
                };
                let b = BODIES[next(BODIES.len())];
                let place = next(6);
                let turn = next(4);
                let twice = next(3);
                let names = ["start", "d", "ws"];
                let mut rules: Vec<Vec<String>> = vec![];
                for k in 0..3 {
                    let (s, o) = (SECT[next(3)], IGN[next(3)]);
                    let mut v = vec![];
                    match b[k].split_once(" | ") {
                        Some((x, y)) if twice == k + 1 => {
                            v.push(format!("{} -> {o}{x}{s};", names[k]));
                            v.push(format!("{} -> {o}{y};", names[k]));
                        }
                        _ => v.push(format!("{} -> {o}{}{s};", names[k], b[k])),
                    }
                    rules.push(v);
                }
                rules.push(vec!["o -> \"~\" {1};".into()]);
                rules.rotate_left(turn);
                // second statements last
                let mut stm: Vec<String> = rules.iter().map(|v| v[0].clone()).collect();
                stm.extend(rules.iter().filter_map(|v| v.get(1).cloned()));
                if place < 5 {
                    stm.insert(place, "$IGNORE: ws;".into());
                }
                let text = stm.join("\n");
                let f = hx::refread::read(&text.chars().collect::<Vec<_>>()).unwrap();
                if hx::dump::ambiguous_repeats(&f) {
                    st.skipped += 1;
                    return Ok(());
                }
                let g = hx::refread::to_gram(&f.woven());
                let an = analyse(&g);
                if !an.ll1() {
                    st.skipped += 1;
                    return Ok(());
                }
                let sg = hx::fam::sigma(&g);
                let cases: Vec<langs::Case> = probes(&g, &an, &sg, 4, 300, true).into_iter().map(|p| p.into()).collect();
                let sub = Subject { text, g, an, cases };
                langs::count(&sub, st);
                decide(&sub, st)
            },
        ));
        families.push(hx::huge::each(|what, h, st| {
            let vm = DoneVm;
            let Ok(mut p) = catch(|| Parser::new_from_text(&h.rules, &vm)) else {
                st.skipped += 1;
                return Ok(());
            };
            let want = &h.parts;
            let text: String = h.script.iter().collect();
            let mut state = vec![];
            if !matches!(catch(|| p.parse(&text, &mut state)), Ok(Ok(_))) {
                return Ok(()); // C01's business
            }
            st.traces += 1;
            if state.len() != want.len() {
                return Err(format!("{what}: {} rules are completed, but {} actions are run", want.len(), state.len()));
            }
            for (k, (g, w)) in state.iter().zip(want.iter().zip(&h.done)).enumerate() {
                if g != &(w.1.clone(), w.0.0, w.0.1.clone()) {
                    return Err(format!("{what}: action {k} is of rule {} with {} children ({:?}), but completed is {} with {}", g.0, g.1, g.2, w.1, w.0.0));
                }
            }
            Ok(())
        }));
        Check {
            id: "C08",
            technique: "exhaustive bounded exploration of (grammar with actions, script) pairs with a tracing VM against derivations and a reference LL(1) machine",
            assumptions: vec!["for rejected scripts, completion is that of the table-driven machine with the exact predict sets".into()],
            families,
        }
    })
}
