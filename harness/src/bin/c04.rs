//! C04: a parser is built exactly from the LL(1) grammars.
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::vms::NullVm;
use hx::fam;
use hx::gram::*;
use hx::run::*;

fn why(g: &Gram, an: &An) -> String {
    format!(
        "{}{}{}",
        if an.undefined || !g.defined(g.start) { "has an undefined rule " } else { "" },
        if an.leftrec { "is left-recursive " } else { "" },
        if an.conflict { "has overlapping predict sets" } else { "" }
    )
}
fn decide(g: &Gram, st: &mut Stat, programmatic: bool) -> Result<(), String> {
    let an = analyse(g);
    let want = an.ll1();
    st.states += 1;
    st.transitions += g.rules.iter().map(|r| r.len() as u64).sum::<u64>();
    st.traces += 1;
    st.count(if want { "LL(1)" } else if an.leftrec { "left-recursive" } else if an.undefined { "undefined rule" } else { "conflict" });
    if want {
        st.sample(|| g.render().replace('\n', " "));
    }
    let vm = NullVm::new();
    // the staged interface: errors are values, nothing may panic
    let (d, ids) = g.to_data::<NullVm>(|_| vec![]);
    let start = ids[g.start];
    let r = catch(|| -> Result<(), String> {
        let first = get_first_sets(&d).map_err(|e| e.to_string())?;
        let follow = get_follow_sets(start, &first, &d).map_err(|e| e.to_string())?;
        get_steuermaps(&first, &follow, d).map_err(|e| e.to_string())?;
        Ok(())
    })
    .map_err(|e| format!("{e} while computing the tables of\n{}", g.render()))?;
    if r.is_ok() != want {
        return Err(format!(
            "this grammar {} but the tables {}\n{}",
            if want { "is LL(1)".into() } else { why(g, &an) },
            match &r {
                Ok(_) => "were built".to_string(),
                Err(e) => format!("were refused: {e}"),
            },
            g.render()
        ));
    }
    let built = if programmatic {
        let (d, ids) = g.to_data::<NullVm>(|_| vec![]);
        catch(|| Parser::new_from_parser_data(d, ids[g.start], &vm)).is_ok()
    } else {
        let text = g.render();
        catch(|| Parser::new_from_text(&text, &vm)).is_ok()
    };
    if built != want {
        return Err(format!(
            "this grammar {} but a parser {}\n{}",
            if want { "is LL(1)".into() } else { why(g, &an) },
            if built { "was built" } else { "could not be built" },
            g.render()
        ));
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let mut families = vec![];
        let mut fams = vec![fam::undefined(), fam::hidden(), fam::positions()];
        let mut std = fam::standard(tier);
        std.push(fam::two_wide());
        fams.extend(std);
        for f in fams {
            let mk = f.make.clone();
            let b = f.bound.split("; scripts").next().unwrap().to_string();
            let prog = f.name == "names";
            families.push(family(f.name, &b, f.n, move |i, st| decide(&mk(i), st, prog || i % 4 == 3)));
        }
        families.push(hx::uni::grams(|g, st| decide(g, st, g.ts.iter().any(|t| t.contains(['"', '\\'])))));
        families.push(family("texts", "rule texts without any rule, without start, with duplicate rules", 8, |i, st| {
            let (text, want) = [
                ("", false),
                ("  \n", false),
                ("a -> \"x\";", false),
                ("start -> \"x\"; start -> \"y\";", true),
                ("start -> \"x\"; start -> \"x\";", false),
                ("Start -> \"x\";", false),
                ("start -> \"start\";", true),
                ("a -> \"start\" | start;", false),
            ][i as usize];
            let vm = NullVm::new();
            st.states += 1;
            st.traces += 1;
            if catch(|| Parser::new_from_text(text, &vm)).is_ok() != want {
                return Err(format!("parser expected to be built: {want}, for {text:?}"));
            }
            Ok(())
        }));
        families.push(family(
            "huge",
            "n alternatives (n around 128, 256, 4096, 32768, 65536 and 70000), n rules (n<33000), n optional rules in a row (n<=300): sound, and with one fault at the far ends or next to each other (equal alternatives, two empty ones, an empty one whose follow is among them, an undefined, left-recursive or ambiguous last rule)",
            hx::huge::SIZES.len() as u64 * 14,
            |i, st| {
                let (n, k) = (hx::huge::SIZES[(i / 14) as usize], i % 14);
                let ch = |k: usize| char::from_u32(0x1_0000 + k as u32).unwrap();
                let (text, want) = if k < 7 {
                    let mut alts: Vec<String> = (0..n).map(|k| format!("\"{}\"", ch(k))).collect();
                    let mut after = "\"z\"".to_string();
                    match k {
                        1 => alts[n - 1] = alts[0].clone(),
                        2 => alts[n - 2] = format!("{} \"x\"", alts[n - 1]),
                        3 => alts.push("#".into()),
                        4 => alts.extend(["#".into(), "#".into()]),
                        5 => {
                            alts.insert(n / 2, "#".into());
                            after = alts[n].clone();
                        }
                        6 => {
                            // the follow is not among them
                            alts.push("#".into());
                            after = format!("\"{}\"", ch(n));
                        }
                        _ => {}
                    }
                    (format!("start -> w {after}; w -> {};", alts.join("|")), matches!(k, 0 | 3 | 6))
                } else if k < 11 {
                    if n > 33_000 {
                        return Ok(());
                    }
                    let mut t: String = "start -> ".into();
                    t.extend((0..n).map(|k| format!("r{k} ")));
                    t += "; ";
                    t.extend((0..n - 1).map(|k| format!("r{k} -> \"a\" r{} | \"b\";", (k + 1) % n)));
                    t += ["", "r_ -> \"c\";", "", ""][k as usize - 7];
                    if k != 8 {
                        t += &format!("r{} -> {};", n - 1, ["\"d\"", "", &format!("r{} \"x\" | \"y\"", n - 1), "\"d\" | \"e\" | \"d\" \"f\""][k as usize - 7]);
                    }
                    (t, k == 7)
                } else {
                    if n > 300 {
                        return Ok(());
                    }
                    let mut t: String = "start -> ".into();
                    t.extend((0..n).map(|k| format!("e{k} ")));
                    t += "\"z\"; ";
                    t.extend((0..n - 1).map(|k| format!("e{k} -> \"{}\" | #;", ch(k))));
                    t += &format!("e{} -> \"{}\" | #;", n - 1, [ch(n - 1), ch(0), 'z'][k as usize - 11]);
                    (t, k == 11)
                };
                st.states += 1;
                st.traces += 1;
                st.transitions += n as u64;
                let vm = NullVm::new();
                let built = catch(|| Parser::new_from_text(&text, &vm)).is_ok();
                if built != want {
                    return Err(format!("parser expected to be built: {want}; large grammar of kind {k}, n={n}: {}", text.chars().take(300).collect::<String>()));
                }
                Ok(())
            },
        ));
        Check {
            id: "C04",
            technique: "exhaustive bounded exploration of all grammars, LL(1) or not, against textbook predict sets",
            assumptions: vec!["grammars beyond the stated bounds are not explored".into()],
            families,
        }
    })
}
