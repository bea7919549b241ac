//! C03: a rejected script is reported at its first offending character.
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::NullVm;
use hx::langs::{self, Subject};
use hx::run::*;
use hx::vmx::describe;

fn decide(s: &Subject, st: &mut Stat) -> Result<(), String> {
    let vm = NullVm::new();
    let Ok(mut p) = catch(|| Parser::new_from_text(&s.text, &vm)) else {
        st.skipped += 1;
        return Ok(());
    };
    let mut state = 0usize;
    for c in &s.cases {
        if c.accept {
            continue;
        }
        let e = match catch(|| p.parse(&c.text, &mut state)) {
            Ok(Err(e)) => e,
            Ok(Ok(_)) => continue, // C01's business
            Err(e) => return Err(format!("{e} instead of an error\n{}", describe(&s.g, &c.s))),
        };
        st.traces += 1;
        let ok = match &e {
            ParserError::UnexpectedCharError { chr, pos, .. } => {
                *pos == c.viable && (c.viable == c.s.len() || *chr == c.s[c.viable])
            }
            ParserError::EndOfCharsError { pos } => c.viable == c.s.len() && *pos == c.viable,
            _ => false,
        };
        if !ok {
            return Err(format!(
                "the longest prefix a text of the grammar begins with has {} characters (next: {:?}), reported: {e:?}\n{}",
                c.viable,
                c.s.get(c.viable),
                describe(&s.g, &c.s)
            ));
        }
    }
    Ok(())
}

fn scale(tier: Tier) -> Family {
    let max = if tier == Tier::Quick { 300u64 } else { 1000 };
    family("scale", &format!("errors at every position 0..{max} of long lists and long words, ASCII and multi-byte"), max * 2, |i, st| {
        let n = (i / 2) as usize;
        let (rules, text): (String, String) = if i % 2 == 0 {
            ("start -> \"é\" start | \"x\" start | #;".into(), "éx".repeat(n).chars().take(n).collect::<String>() + "!éx")
        } else {
            let w: String = "日x".repeat(n + 1).chars().take(n + 1).collect();
            (format!("start -> \"{w}\";"), w.chars().take(n).collect::<String>() + "!x")
        };
        let vm = NullVm::new();
        let mut state = 0;
        let Ok(mut p) = catch(|| Parser::new_from_text(&rules, &vm)) else {
            st.skipped += 1;
            return Ok(());
        };
        st.traces += 1;
        st.states += 1;
        st.transitions += n as u64;
        match catch(|| p.parse(&text, &mut state)) {
            Ok(Err(ParserError::UnexpectedCharError { chr: '!', pos, .. })) if pos == n => Ok(()),
            Ok(Ok(_)) => Ok(()),
            Ok(Err(e)) => Err(format!("expected '!' at {n}, reported {e:?}\nrules {rules}\nscript {text:?}")),
            Err(e) => Err(e.to_string()),
        }
    })
}

fn main() {
    main_check(|tier| {
        let mut families = langs::families(tier, false, false, |an| an.all_productive(), hx::fam::standard(tier), decide);
        families.push(scale(tier));
        families.push(hx::huge::each(|what, h, st| {
            let vm = NullVm::new();
            let faults = hx::huge::faults(&h.script);
            let Ok(mut p) = catch(|| Parser::new_from_text(&h.rules, &vm)) else {
                st.skipped += 1;
                return Ok(());
            };
            for (s, at) in &faults {
                st.traces += 1;
                let c = s.chars().nth(*at);
                let e = match catch(|| p.parse(s, &mut 0)) {
                    Ok(Err(e)) => e,
                    Ok(Ok(_)) => continue,
                    Err(e) => return Err(format!("{what}: {e}")),
                };
                let ok = match (&e, c) {
                    (ParserError::UnexpectedCharError { chr, pos, .. }, Some(c)) => pos == at && *chr == c,
                    (ParserError::UnexpectedCharError { pos, .. } | ParserError::EndOfCharsError { pos }, None) => pos == at,
                    _ => false,
                };
                if !ok {
                    return Err(format!("{what}: wrong at {at} ({c:?}), but reported: {e:?}"));
                }
            }
            Ok(())
        }));
        Check {
            id: "C03",
            technique: "exhaustive bounded exploration of (grammar, non-sentence) pairs against a viable-prefix oracle",
            assumptions: vec!["what the error says at the end of the input beyond its position is not constrained".into()],
            families,
        }
    })
}
