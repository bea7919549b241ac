//! C02: an accepted script yields exactly its derivation tree.
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::NodeId;
use henriks_parsing_project::vms::NullVm;
use hx::langs::{self, Subject};
use hx::run::*;
use hx::vmx::{describe, read_tree, root, LTree};

fn decide(s: &Subject, st: &mut Stat) -> Result<(), String> {
    let vm = NullVm::new();
    let Ok(mut p) = catch(|| Parser::new_from_text(&s.text, &vm)) else {
        st.skipped += 1;
        return Ok(());
    };
    let mut state = 0usize;
    for c in &s.cases {
        let Some(want) = &c.tree else { continue };
        let t = match catch(|| p.parse(&c.text, &mut state)) {
            Ok(Ok(t)) => t,
            _ => continue, // C01's business
        };
        st.traces += 1;
        let want = LTree::of(want);
        let size = want.size();
        let got = catch(|| -> Result<LTree, String> {
            let got = read_tree(&t, root())?;
            if size <= 24 {
                // nothing else: exactly `size` handles are alive
                let mut alive = 0;
                for i in 0..size + 3 {
                    for j in 0..size + 3 {
                        if t.node_exists(NodeId { node_ptr: i, node_pk: j }) {
                            alive += 1;
                        }
                    }
                }
                if alive != size {
                    return Err(format!("{alive} nodes exist, the derivation has {size}"));
                }
            }
            if t.get_descendants(root()).len() + 1 != size {
                return Err(format!("get_descendants lists {} nodes, the derivation has {size}", t.get_descendants(root()).len() + 1));
            }
            Ok(got)
        })
        .map_err(|e| format!("{e}\n{}", describe(&s.g, &c.s)))?
        .map_err(|e| format!("{e}\n{}", describe(&s.g, &c.s)))?;
        if got != want {
            return Err(format!("tree {}\nexpected {}\n{}", got.show(), want.show(), describe(&s.g, &c.s)));
        }
    }
    Ok(())
}

fn scale(tier: Tier) -> Family {
    let max = if tier == Tier::Quick { 150u64 } else { 500 };
    family("scale", &format!("trees of lists and nestings of every size 1..{max}"), max * 2, |i, st| {
        let n = (i / 2 + 1) as usize;
        let leaf = |s: &str| LTree { data: s.into(), kids: vec![] };
        let node = |kids| LTree { data: String::new(), kids };
        let (rules, text, want) = if i % 2 == 0 {
            let mut more = node(vec![]);
            for _ in 0..n {
                more = node(vec![leaf(","), leaf("xy"), more]);
            }
            ("start -> \"xy\" more; more -> \",\" \"xy\" more | #;", "xy,".repeat(n) + "xy", node(vec![leaf("xy"), more]))
        } else {
            let mut t = node(vec![leaf("o")]);
            for _ in 0..n {
                t = node(vec![leaf("("), t, leaf(")")]);
            }
            ("start -> \"(\" start \")\" | \"o\";", "(".repeat(n) + "o" + &")".repeat(n), t)
        };
        let vm = NullVm::new();
        let mut state = 0;
        let Ok(mut p) = catch(|| Parser::new_from_text(rules, &vm)) else {
            st.skipped += 1;
            return Ok(());
        };
        let Ok(Ok(t)) = catch(|| p.parse(&text, &mut state)) else { return Ok(()) };
        st.traces += 1;
        st.states += 1;
        st.transitions += want.size() as u64;
        let got = catch(|| read_tree(&t, root())).map_err(|e| e.to_string())??;
        if got != want {
            return Err(format!("wrong tree for {rules} on {text:?}: {}", got.show()));
        }
        Ok(())
    })
}

fn main() {
    main_check(|tier| {
        let mut families = langs::families(tier, true, false, |_| true, hx::fam::standard(tier), decide);
        families.push(scale(tier));
        families.push(hx::huge::each(|what, h, st| {
            let vm = NullVm::new();
            let Ok(mut p) = catch(|| Parser::new_from_text(&h.rules, &vm)) else {
                st.skipped += 1;
                return Ok(());
            };
            let text: String = h.script.iter().collect();
            let Ok(Ok(t)) = catch(|| p.parse(&text, &mut 0)) else { return Ok(()) };
            st.traces += 1;
            let got = catch(|| read_tree(&t, root())).map_err(|e| format!("{what}: {e}"))??;
            if got != h.tree {
                return Err(format!("{what}: not the derivation tree: {} nodes instead of {}", got.size(), h.tree.size()));
            }
            let d = t.get_descendants(root()).len() + 1;
            if d != h.tree.size() {
                return Err(format!("{what}: get_descendants lists {} nodes, the derivation has {}", d, h.tree.size()));
            }
            Ok(())
        }));
        Check {
            id: "C02",
            technique: "exhaustive bounded exploration of (grammar, sentence) pairs against chart derivations",
            assumptions: vec!["the root of a parse is the node with slot 0 and key 0, as the repository's tests use it".into()],
            families,
        }
    })
}
