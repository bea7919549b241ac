//! Comparing the library's set maps with the oracle's.
use crate::gram::*;
use henriks_parsing_project::parser_data::{ElementIndex, ParserData};
use henriks_parsing_project::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
use henriks_parsing_project::vms::VM;
#[cfg(feature = "ctl")]
use ctlstd::collections::HashSet;
use std::collections::BTreeSet;
#[cfg(not(feature = "ctl"))]
use std::collections::HashSet;

/// Some(c) a character, None-like markers as strings
pub type M = String;
pub fn m_we(x: &SetMemberWithEmpty) -> M {
    match x {
        SetMemberWithEmpty::Char(c) => format!("{c:?}"),
        SetMemberWithEmpty::Empty => "EMPTY".into(),
        SetMemberWithEmpty::Terminate => "END".into(),
    }
}
pub fn m_ne(x: &SetMember) -> M {
    match x {
        SetMember::Char(c) => format!("{c:?}"),
        SetMember::Terminate => "END".into(),
    }
}
pub fn want(an: &An, s: Set, empty: bool) -> BTreeSet<M> {
    let mut v: BTreeSet<M> =
        an.set_chars(s).into_iter().map(|c| c.map(|c| format!("{c:?}")).unwrap_or("END".into())).collect();
    if empty {
        v.insert("EMPTY".into());
    }
    v
}
pub fn got_we(s: &HashSet<SetMemberWithEmpty>) -> BTreeSet<M> {
    s.iter().map(m_we).collect()
}
pub fn got_ne(s: &HashSet<SetMember>) -> BTreeSet<M> {
    s.iter().map(m_ne).collect()
}
/// FIRST sets equal to the oracle's, for exactly the rules.
pub fn check_first(g: &Gram, an: &An, ids: &[ElementIndex], f: &NamedSets) -> Result<(), String> {
    for r in 0..g.nts.len() {
        if !g.defined(r) {
            continue;
        }
        let w = want(an, an.first[r], an.nullable[r]);
        match f.get(&ids[r]) {
            None => return Err(format!("no FIRST set for {}\n{}", g.nts[r], g.render())),
            Some(x) if got_we(x) != w => {
                return Err(format!("FIRST({}) = {:?}, expected {:?}\n{}", g.nts[r], got_we(x), w, g.render()))
            }
            _ => {}
        }
    }
    Ok(())
}
pub fn check_ne(what: &str, g: &Gram, an: &An, ids: &[ElementIndex], f: &NamedSetsNoEmpty, w: impl Fn(usize) -> Set) -> Result<(), String> {
    for r in 0..g.nts.len() {
        if !g.defined(r) {
            continue;
        }
        let w = want(an, w(r), false);
        match f.get(&ids[r]) {
            None => return Err(format!("no {what} set for {}\n{}", g.nts[r], g.render())),
            Some(x) if got_ne(x) != w => {
                return Err(format!(
                    "{what}({}) = {:?}, expected {:?} (start rule {})\n{}",
                    g.nts[r],
                    got_ne(x),
                    w,
                    g.nts[g.start],
                    g.render()
                ))
            }
            _ => {}
        }
    }
    Ok(())
}
/// Element indices of the rules of `g` in data read from its text.
pub fn ids_of<V: VM>(g: &Gram, d: &ParserData<V>) -> Vec<ElementIndex> {
    g.nts.iter().map(|n| d.get_element_nt_index(n).unwrap_or(usize::MAX)).collect()
}
