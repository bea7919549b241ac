//! C01: a script parses exactly when the grammar generates it.
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::NullVm;
use hx::langs::{self, Subject};
use hx::run::*;
use hx::vmx::describe;

fn decide(s: &Subject, st: &mut Stat) -> Result<(), String> {
    let vm = NullVm::new();
    let Ok(mut p) = catch(|| Parser::new_from_text(&s.text, &vm)) else {
        st.skipped += 1; // whether a parser can be built is C04's business
        return Ok(());
    };
    let mut state = 0usize;
    for c in &s.cases {
        st.traces += 1;
        let r = catch(|| p.parse(&c.text, &mut state)).map_err(|e| format!("{e}\n{}", describe(&s.g, &c.s)))?;
        if r.is_ok() != c.accept {
            return Err(format!(
                "the grammar {} this script, but parsing {}\n{}rule text: {}",
                if c.accept { "generates" } else { "does not generate" },
                match &r {
                    Ok(_) => "accepted it".to_string(),
                    Err(e) => format!("failed: {e}"),
                },
                describe(&s.g, &c.s) + "\n",
                s.text
            ));
        }
    }
    Ok(())
}

/// Scripts of unbounded size whose membership is known by construction.
fn scale(tier: Tier) -> Family {
    let max = if tier == Tier::Quick { 400u64 } else { 2000 };
    family(
        "scale",
        &format!("list, nesting, long word and block grammars at every size 1..{max}: the sentence, one character less, one more, one wrong at the end"),
        max * 4,
        |i, st| {
            let (n, shape) = ((i / 4 + 1) as usize, i % 4);
            let word = "ab".repeat(n);
            let (rules, good, bad): (String, String, Vec<String>) = match shape {
                0 => ("start -> \"x\" more; more -> \",\" \"x\" more | #;".into(), "x,".repeat(n) + "x", vec!["x,".repeat(n), "x,".repeat(n) + "y", "x,".repeat(n) + "xx"]),
                1 => ("start -> \"(\" start \")\" | \"o\";".into(), "(".repeat(n) + "o" + &")".repeat(n), vec!["(".repeat(n) + "o" + &")".repeat(n - 1), "(".repeat(n) + "o" + &")".repeat(n + 1), "(".repeat(n) + &")".repeat(n)]),
                2 => (format!("start -> \"{word}\" t; t -> \"c\" | #;"), word.clone() + "c", vec![word.clone() + "a", word[1..].to_string(), word[..word.len() - 1].to_string() + "c"]),
                _ => {
                    // n alternatives with different first characters
                    let m = n.min(300);
                    let cs: Vec<char> = (0..m as u32).map(|k| char::from_u32(0x3400 + k).unwrap()).collect();
                    let alts: Vec<String> = cs.iter().map(|c| format!("\"{c}!\"")).collect();
                    let good: String = cs.iter().map(|c| format!("{c}!")).collect();
                    (
                        format!("start -> w start | #; w -> {};", alts.join("|")),
                        good.clone(),
                        vec![good.clone() + "!", good[..good.len() - 1].to_string(), good.clone() + &char::from_u32(0x3400 + m as u32).unwrap().to_string() + "!"],
                    )
                }
            };
            let vm = NullVm::new();
            let Ok(mut p) = catch(|| Parser::new_from_text(&rules, &vm)) else {
                st.skipped += 1;
                return Ok(());
            };
            let mut state = 0usize;
            st.states += 4;
            st.traces += 4;
            st.transitions += good.chars().count() as u64 * 4;
            let mut try_ = |s: &'static str, want: bool| -> Result<(), String> {
                let r = catch(|| p.parse(s, &mut state)).map_err(|e| format!("{e}\nrules {rules}\nscript {s:?}"))?;
                if r.is_ok() != want {
                    return Err(format!("expected accept={want}, got accept={}\nrules {rules}\nscript {s:?}", r.is_ok()));
                }
                Ok(())
            };
            try_(leak(good), true)?;
            for b in bad {
                try_(leak(b), false)?;
            }
            Ok(())
        },
    )
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn main() {
    main_check(|tier| {
        let mut families = langs::families(tier, false, false, |_| true, hx::fam::standard(tier), decide);
        families.push(scale(tier));
        families.push(hx::huge::each(|what, h, st| {
            let vm = NullVm::new();
            let Ok(mut p) = catch(|| Parser::new_from_text(&h.rules, &vm)) else {
                st.skipped += 1;
                return Ok(());
            };
            let mut state = 0usize;
            let good: String = h.script.iter().collect();
            let bad = hx::huge::faults(&h.script);
            for (s, at) in [(good, None)].into_iter().chain(bad.into_iter().map(|(s, p)| (s, Some(p)))) {
                st.traces += 1;
                let say = |m: String| format!("{what}, {}: {m}", at.map(|p| format!("wrong at {p}")).unwrap_or("the sentence".into()));
                let r = catch(|| p.parse(leak(s.clone()), &mut state)).map_err(|e| say(e.to_string()))?;
                if r.is_ok() != at.is_none() {
                    return Err(say(format!("accepted: {}", r.is_ok())));
                }
            }
            Ok(())
        }));
        Check {
            id: "C01",
            technique: "exhaustive bounded exploration of (grammar, script) pairs against a chart oracle",
            assumptions: vec![
                "script depth is limited by the stack of the calling thread (64 MB in the harness)".into(),
                "grammars and scripts beyond the stated bounds are not explored".into(),
            ],
            families,
        }
    })
}
