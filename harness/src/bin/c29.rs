//! C29: lookahead values and errors say exactly what they carry.
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::parse_funcs::parse_symbol;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::sets::{SetMember, SetMemberWithEmpty};
use henriks_parsing_project::tree::{NodeId, TreeError};
use henriks_parsing_project::vms::NullVm;
use hx::gram::*;
use hx::langs::{self, Subject};
use hx::run::*;
use hx::vmx::describe;
use std::collections::HashSet;

const CHUNK: u64 = 4096;
const CHUNKS: u64 = 0x110000 / CHUNK;
fn chars_of(i: u64) -> impl Iterator<Item = char> {
    (i * CHUNK..(i + 1) * CHUNK).filter_map(|u| char::from_u32(u as u32))
}
fn need(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if ok { Ok(()) } else { Err(what()) }
}

fn members(i: u64, st: &mut Stat) -> Result<(), String> {
    let text = |m: SetMember| -> String { m.into() };
    let text_we = |m: SetMemberWithEmpty| -> String { m.into() };
    let end = SetMember::from(None);
    need(end == SetMember::Terminate, || format!("nothing left becomes {end:?}"))?;
    let t = SetMember::try_from(SetMemberWithEmpty::Terminate);
    need(t == Ok(SetMember::Terminate), || format!("the end marker becomes {t:?}"))?;
    let e = SetMember::try_from(SetMemberWithEmpty::Empty);
    need(e.is_err(), || format!("the empty marker becomes {e:?}"))?;
    let marks = [
        text(SetMember::Terminate),
        text_we(SetMemberWithEmpty::Terminate),
        text_we(SetMemberWithEmpty::Empty),
        SetMember::Terminate.to_string(),
        SetMemberWithEmpty::Terminate.to_string(),
        SetMemberWithEmpty::Empty.to_string(),
    ];
    need(marks[1] != marks[2] && marks[4] != marks[5], || format!("the empty marker and the end marker read alike: {marks:?}"))?;
    let (mut seen, mut seen_we) = (HashSet::new(), HashSet::new());
    for m in &marks[3..4] {
        seen.insert(m.clone());
    }
    for m in &marks[4..6] {
        seen_we.insert(m.clone());
    }
    for c in chars_of(i) {
        st.states += 1;
        st.transitions += 6;
        let m = SetMember::from(Some(&c));
        need(m == SetMember::Char(c), || format!("the character {c:?} becomes {m:?}"))?;
        let m2 = SetMember::try_from(SetMemberWithEmpty::Char(c));
        need(m2 == Ok(m), || format!("the member {c:?} becomes {m2:?}"))?;
        let (a, b) = (text(m), text_we(SetMemberWithEmpty::Char(c)));
        need(a.chars().eq([c]) && b.chars().eq([c]), || format!("the member {c:?} turned into text is {a:?} / {b:?}"))?;
        need(!marks[..3].contains(&a), || format!("the member {c:?} reads like a marker"))?;
        let (a, b) = (m.to_string(), SetMemberWithEmpty::Char(c).to_string());
        need(a.contains(c) && b.contains(c), || format!("the member {c:?} is shown as {a} / {b}"))?;
        need(seen.insert(a) && seen_we.insert(b), || format!("the member {c:?} is shown like another member"))?;
    }
    st.traces += 1;
    Ok(())
}

const NUMS: &[usize] = &[0, 1, 2, 7, 9, 10, 11, 42, 99, 100, 127, 128, 255, 256, 999, 1000, 4095, 65535, 65536, 123456789, u32::MAX as usize, u32::MAX as usize + 1, isize::MAX as usize, usize::MAX];
const TEXTS: &[&str] = &["x", "digit expected", "a;b", "\"", "é日本😀", "IGNORE", "#", "end of input", "{}", "{0}", "two\nlines"];

/// Every message contains every one of `parts`, and differs from all messages given before.
fn told(seen: &mut HashSet<String>, e: &dyn std::error::Error, parts: &[String], st: &mut Stat) -> Result<(), String> {
    let s = e.to_string();
    st.states += 1;
    st.transitions += parts.len() as u64;
    for p in parts {
        need(s.contains(p.as_str()), || format!("the message of {e:?} does not contain {p:?}: {s:?}"))?;
    }
    need(seen.insert(s.clone()), || format!("the message of {e:?} is also that of another error: {s:?}"))
}
fn messages(i: u64, st: &mut Stat) -> Result<(), String> {
    st.traces += 1;
    let mut seen = HashSet::new();
    let n = |x: usize| x.to_string();
    if i < CHUNKS {
        for chr in chars_of(i) {
            for pos in [0, 5, 65536] {
                told(&mut seen, &ParserError::UnexpectedCharError { chr, pos, expected: "xyz".into() }, &[chr.to_string(), n(pos), "xyz".into()], st)?;
            }
        }
        return Ok(());
    }
    for &pos in NUMS {
        told(&mut seen, &ParserError::EndOfCharsError { pos }, &[n(pos)], st)?;
        for t in TEXTS {
            let t = t.to_string();
            told(&mut seen, &ParserError::UnknownSpecialOperation { operation: t.clone(), pos }, &[t.clone(), n(pos)], st)?;
            for chr in ['a', '0', '"', ';', '\n', 'é', '😀'] {
                told(&mut seen, &ParserError::UnexpectedCharError { chr, pos, expected: t.clone() }, &[chr.to_string(), n(pos), t.clone()], st)?;
            }
        }
    }
    let mut seen = HashSet::new();
    for &index in NUMS {
        for e in [
            GrammarError::MissingFollowSet { index },
            GrammarError::MissingElementForIndex { index },
            GrammarError::MissingFirstSet { index },
            GrammarError::MissingSteuerSet { index },
            GrammarError::MissingProduction { index },
            GrammarError::LeftRecursion { index },
        ] {
            told(&mut seen, &e, &[n(index)], st)?;
        }
        for t in TEXTS {
            told(&mut seen, &GrammarError::UnexpectedElementError { reason: t.to_string(), pos: index }, &[t.to_string(), n(index)], st)?;
        }
    }
    let mut seen = HashSet::new();
    for &node_ptr in NUMS {
        told(&mut seen, &TreeError::ChildDoesNotExists { child_nth: node_ptr }, &[n(node_ptr)], st)?;
        for &node_pk in NUMS {
            let node_id = NodeId { node_ptr, node_pk };
            let s = node_id.to_string();
            need(s.contains(&n(node_ptr)) && s.contains(&n(node_pk)), || format!("{node_id:?} is shown as {s}"))?;
            told(&mut seen, &TreeError::NodeDoesNotExist { node_id }, &[n(node_ptr), n(node_pk)], st)?;
            told(&mut seen, &TreeError::NodeWasRemoved { node_id }, &[n(node_ptr), n(node_pk)], st)?;
        }
    }
    // wrapping keeps the error
    for &index in NUMS {
        let p = ParserError::from(GrammarError::LeftRecursion { index });
        need(matches!(p, ParserError::GramError { err: GrammarError::LeftRecursion { index: i } } if i == index), || format!("left recursion of {index} wrapped becomes {p:?}"))?;
        let p = ParserError::from(GrammarError::MissingProduction { index });
        need(matches!(p, ParserError::GramError { err: GrammarError::MissingProduction { index: i } } if i == index), || format!("missing production of {index} wrapped becomes {p:?}"))?;
        let node_id = NodeId { node_ptr: index, node_pk: 3 };
        let p = ParserError::from(TreeError::NodeWasRemoved { node_id });
        need(matches!(p, ParserError::TreeError { err: TreeError::NodeWasRemoved { node_id: i } } if i == node_id), || format!("a removed node {index} wrapped becomes {p:?}"))?;
    }
    Ok(())
}
fn symbols(i: u64, st: &mut Stat) -> Result<(), String> {
    st.traces += 1;
    for sym in chars_of(i) {
        for found in ['a', ';', 'é', '\u{0}'] {
            if found == sym {
                continue;
            }
            let t = format!("{found}x");
            let mut w = PeekableWrapper::from_str(&t);
            let mut p = ParseProcess::new(&mut w, None, None);
            st.states += 1;
            st.transitions += 1;
            match catch(|| parse_symbol(&mut p, sym)) {
                Ok(Err(ParserError::UnexpectedCharError { expected, .. })) if expected.contains(sym) => {}
                r => return Err(format!("asked for {sym:?} at {t:?}: {r:?}, which does not say that {sym:?} was expected")),
            }
        }
    }
    Ok(())
}

/// The characters, and whether the end of the script, that can come after `s`.
fn nexts(g: &Gram, an: &An, s: &[char]) -> (Vec<char>, bool) {
    let mut sigma = hx::fam::sigma(g);
    for t in &an.tch {
        sigma.extend(t);
    }
    sigma.sort();
    sigma.dedup();
    let mut x = s.to_vec();
    let cs = sigma
        .into_iter()
        .filter(|c| {
            x.push(*c);
            let v = Chart::new(g, an, &x).viable();
            x.pop();
            v
        })
        .collect();
    (cs, Chart::new(g, an, s).accepts())
}
fn rejected(s: &Subject, st: &mut Stat) -> Result<(), String> {
    let vm = NullVm::new();
    let Ok(mut p) = catch(|| Parser::new_from_text(&s.text, &vm)) else {
        st.skipped += 1;
        return Ok(());
    };
    let mut last: Option<(Vec<char>, (Vec<char>, bool))> = None;
    for c in &s.cases {
        if c.accept || c.viable > 8 {
            continue;
        }
        let Ok(Err(ParserError::UnexpectedCharError { expected, pos, .. })) = catch(|| p.parse(&c.text, &mut 0)) else {
            continue;
        };
        if pos != c.viable {
            continue; // C03's business
        }
        st.traces += 1;
        let pre = &c.s[..pos];
        if last.as_ref().is_none_or(|l| l.0 != pre) {
            last = Some((pre.to_vec(), nexts(&s.g, &s.an, pre)));
        }
        let (cs, end) = &last.as_ref().unwrap().1;
        if !(cs.iter().any(|c| expected.contains(*c)) || *end && !expected.is_empty()) {
            return Err(format!(
                "at {pos} could come {cs:?}{}, but the error says {expected:?} was expected\n{}",
                if *end { " or the end" } else { "" },
                describe(&s.g, &c.s)
            ));
        }
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let mut families = vec![
            family("members", "every Unicode character and both markers, through every conversion and as shown text", CHUNKS, members),
            family("messages", "every error kind with every character at three positions, and with every combination of boundary numbers and texts", CHUNKS + 1, messages),
            family("symbols", "every wanted character against four found ones", CHUNKS, symbols),
        ];
        families.extend(langs::families(tier, false, false, |an| an.all_productive(), hx::fam::standard(tier), rejected));
        Check {
            id: "C29",
            technique: "exhaustive enumeration of all lookahead values and error contents, and of (grammar, non-sentence) pairs against a viable-continuation oracle",
            assumptions: vec!["the wording of messages is not constrained".into()],
            families,
        }
    })
}
