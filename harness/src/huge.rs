//! Grammars and scripts of sizes around powers of two up to 70000 that need no deep recursion;
//! what they mean is known by construction.
use crate::vmx::LTree;

pub const SIZES: [usize; 14] = [127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 70_000];
pub const SHAPES: [&str; 8] = ["word", "flat", "balanced", "alternatives", "rules", "empties", "mixed", "mixed alternatives"];

pub struct Huge {
    pub rules: String,
    pub script: Vec<char>,
    pub tree: LTree,
    /// rules in the order their nodes are finished
    pub done: Vec<String>,
    /// how many parts each of them has then, and the text of its first
    pub parts: Vec<(usize, String)>,
}
/// Stands for the leaf of an empty terminal while the tree is put together.
const NONE: &str = "\u{10ffff}";
fn finish(t: &mut LTree, o: &mut Vec<(usize, String)>) {
    if t.data.is_empty() {
        t.kids.iter_mut().for_each(|k| finish(k, o));
        o.push((t.kids.len(), t.kids.first().map(|k| k.data.clone()).unwrap_or_default()));
    }
    if t.data == NONE {
        t.data.clear();
    }
}
fn leaf(s: &str) -> LTree {
    LTree { data: s.into(), kids: vec![] }
}
fn node(kids: Vec<LTree>) -> LTree {
    LTree { data: String::new(), kids }
}
pub fn huge(shape: usize, n: usize) -> Option<Huge> {
    let (mut rules, mut script, mut kids, mut done) = (String::new(), String::new(), vec![], vec![]);
    match shape {
        0 => {
            let w: String = "日x".chars().cycle().take(n).collect();
            rules = format!("start -> \"{w}\" t {{}}; t -> \"c\" {{}} ;");
            script = w.clone() + "c";
            kids = vec![leaf(&w), node(vec![leaf("c")])];
            done.push("t".into());
        }
        1 => {
            rules.push_str("start -> ");
            for k in 0..n {
                let c = ["é", "x", "😀"][k % 3];
                rules.push_str(&format!("\"{c}\" "));
                script.push_str(c);
                kids.push(leaf(c));
            }
            rules.push_str("{} ;");
        }
        2 => {
            rules.push_str("start -> ");
            let mut top = 0;
            fn sub(k: usize, done: &mut Vec<String>) -> LTree {
                let t = if k == 0 { node(vec![leaf("a")]) } else { node(vec![sub(k - 1, done), sub(k - 1, done)]) };
                done.push(format!("d{k}"));
                t
            }
            for k in 0..20 {
                if n >> k & 1 == 1 {
                    rules.push_str(&format!("d{k} "));
                    kids.push(sub(k, &mut done));
                    top = k;
                }
            }
            rules.push_str("{} ; d0 -> \"a\" {} ;");
            for k in 1..=top {
                rules.push_str(&format!("d{k} -> d{j} d{j} {{}} ;", j = k - 1));
            }
            script = "a".repeat(n);
        }
        3 => {
            // the last alternatives are the ones taken
            let cs: Vec<char> = (0..n as u32).map(|k| char::from_u32(0x1_0000 + k).unwrap()).collect();
            let alts: Vec<String> = cs.iter().map(|c| format!("\"{c}\"")).collect();
            rules = format!("start -> w w w w {{}} ; w -> {} {{}};", alts.join("|"));
            for i in [n - 1, 0, n / 2, n - 2] {
                script.push(cs[i]);
                kids.push(node(vec![leaf(&cs[i].to_string())]));
                done.push("w".into());
            }
        }
        4 => {
            if n > 33_000 {
                return None;
            }
            rules.push_str("start -> ");
            for k in 0..n {
                rules.push_str(&format!("r{k} "));
            }
            rules.push_str("{} ;");
            for k in 0..n {
                let c = ["a", "b"][k % 2];
                rules.push_str(&format!("r{k}->\"{c}\"{{}};"));
                script.push_str(c);
                kids.push(node(vec![leaf(c)]));
                done.push(format!("r{k}"));
            }
        }
        6 => {
            // elements of every kind in turn
            rules.push_str("start -> ");
            for k in 0..n {
                let (spelt, text, kid, name) = match k % 7 {
                    0 => ("\"é\"", "é", leaf("é"), &[][..]),
                    1 | 6 => ("\"\"", "", leaf(NONE), &[][..]),
                    2 => ("e", "", node(vec![]), &["e"][..]),
                    3 if k % 2 == 0 => ("o", "o", node(vec![leaf("o")]), &["o"][..]),
                    3 => ("o", "", node(vec![]), &["o"][..]),
                    4 => ("\"xy\"", "xy", leaf("xy"), &[][..]),
                    _ => ("w", "b", node(vec![leaf(NONE), leaf("b"), node(vec![])]), &["e", "w"][..]),
                };
                rules.push_str(spelt);
                rules.push(' ');
                script.push_str(text);
                kids.push(kid);
                done.extend(name.iter().map(|s| s.to_string()));
            }
            rules.push_str("\"z\" {} ; e -> # {} ; o -> # | \"o\" {} ; w -> \"\" \"b\" e {} ;");
            kids.push(leaf("z"));
            script.push('z');
        }
        7 => {
            // alternatives of every kind in turn, the empty one in their middle
            let ch = |k: usize| char::from_u32(0x1_0000 + k as u32).unwrap();
            let mut alts: Vec<String> = (0..n)
                .map(|k| match (k % 3, ch(k)) {
                    (0, c) => format!("\"{c}\""),
                    (1, c) => format!("\"\" \"{c}d\""),
                    (_, c) => format!("\"{c}\" e \"f\""),
                })
                .collect();
            alts.insert(n / 2, "#".into());
            rules = format!("start -> {} {{}} ; w -> {} {{}}; e -> # {{}} ;", "w \",\" ".repeat(8), alts.join("|"));
            for i in [Some(n - 1), None, Some(0), Some(n / 2), Some(n / 2 + 1), None, Some(n - 2), Some(n - 3)] {
                kids.push(match i.map(|i| (i % 3, ch(i).to_string())) {
                    None => node(vec![]),
                    Some((0, c)) => {
                        script.push_str(&c);
                        node(vec![leaf(&c)])
                    }
                    Some((1, c)) => {
                        script.push_str(&format!("{c}d"));
                        node(vec![leaf(NONE), leaf(&format!("{c}d"))])
                    }
                    Some((_, c)) => {
                        script.push_str(&format!("{c}f"));
                        done.push("e".into());
                        node(vec![leaf(&c), node(vec![]), leaf("f")])
                    }
                });
                done.push("w".into());
                kids.push(leaf(","));
                script.push(',');
            }
        }
        _ => {
            if n > 300 {
                return None;
            }
            rules.push_str("start -> ");
            for _ in 0..n {
                rules.push_str("e ");
                kids.push(node(vec![]));
                done.push("e".into());
            }
            rules.push_str("\"é\" {} ; e -> # {} ;");
            kids.push(leaf("é"));
            script.push('é');
        }
    }
    done.push("start".into());
    let (mut tree, mut parts) = (node(kids), vec![]);
    finish(&mut tree, &mut parts);
    assert!(parts.len() == done.len());
    Some(Huge { rules, script: script.chars().collect(), tree, done, parts })
}
/// Scripts that are wrong, with the place: cut off, a foreign character put in, one too many.
pub fn faults(s: &[char]) -> Vec<(String, usize)> {
    let n = s.len();
    let mut v = vec![(s.iter().chain(['!'].iter()).collect(), n), (s.iter().chain(s[..1].iter()).collect(), n)];
    for p in [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
        if p >= n {
            continue;
        }
        v.push((s[..p].iter().collect(), p));
        let mut t = s.to_vec();
        t[p] = '!';
        v.push((t.iter().collect(), p));
    }
    v
}
pub fn each(check: impl Fn(&str, &Huge, &mut crate::run::Stat) -> Result<(), String> + Send + Sync + 'static) -> crate::run::Family {
    crate::run::family(
        "huge",
        "a terminal of n characters, a rule of n terminals, a balanced tree of n leaves, n alternatives, n rules (n<33000), n empty nodes (n<=300), a rule of n elements or alternatives of every kind; n around 128, 256, 4096, 32768, 65536 and 70000: the sentence; 12 scripts cut off, extended or with a foreign character at the ends and in the middle",
        (SIZES.len() * SHAPES.len()) as u64,
        move |i, st| {
            let (shape, n) = (i as usize % SHAPES.len(), SIZES[i as usize / SHAPES.len()]);
            let Some(h) = huge(shape, n) else { return Ok(()) };
            st.states += 1;
            st.transitions += h.script.len() as u64;
            st.sample(|| format!("{} of {n}", SHAPES[shape]));
            check(&format!("{} of {n}", SHAPES[shape]), &h, st)
        },
    )
}

use crate::sets::M;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::vms::NullVm;
use std::collections::BTreeSet;

/// A rule of a large grammar with what its sets have to be.
pub struct BigRule {
    pub id: usize,
    pub first: BTreeSet<M>,
    pub follow: BTreeSet<M>,
    /// alternatives with their predict sets
    pub alts: Vec<(Vec<usize>, BTreeSet<M>)>,
}
pub const SET_SHAPES: u64 = 7;
/// Large grammars with known sets; the first rule is the one to start at.
pub fn big_sets(shape: u64, n: usize) -> Option<(ParserData<NullVm>, Vec<BigRule>)> {
    let ch = |k: usize| char::from_u32(0x1_0000 + k as u32).unwrap();
    let m = |k: usize| format!("{:?}", ch(k));
    let mut d = ParserData::<NullVm>::new();
    let set = |i: &mut dyn Iterator<Item = M>| -> BTreeSet<M> { i.collect() };
    let end = || BTreeSet::from(["END".to_string()]);
    let z = || BTreeSet::from(["'z'".to_string()]);
    let mut out = vec![];
    match shape {
        // two rules of n optional characters each in a row
        0 => {
            let (s, w, v) = (d.get_or_add_non_terminal("start"), d.get_or_add_non_terminal("w"), d.get_or_add_non_terminal("v"));
            let zt = d.get_or_add_terminal("z");
            let cs = set(&mut (0..n).map(m));
            let ds = set(&mut (n..2 * n).map(m));
            let all: BTreeSet<M> = cs.iter().chain(&ds).cloned().chain(z()).collect();
            out.push(BigRule { id: s, first: all.clone(), follow: end(), alts: vec![(vec![w, v, zt], all)] });
            let dz: BTreeSet<M> = ds.iter().cloned().chain(z()).collect();
            for (r, from, own, after) in [(w, 0, &cs, dz), (v, n, &ds, z())] {
                let mut alts: Vec<(Vec<usize>, BTreeSet<M>)> = (0..n).map(|k| (vec![d.get_or_add_terminal(&ch(from + k).to_string())], BTreeSet::from([m(from + k)]))).collect();
                alts.insert(n / 3, (vec![], after.clone()));
                let first = own.iter().cloned().chain(["EMPTY".to_string()]).collect();
                out.push(BigRule { id: r, first, follow: after, alts });
            }
        }
        // n rules in a row, each of which can be empty
        1 => {
            if n > 300 {
                return None;
            }
            let s = d.get_or_add_non_terminal("start");
            let es: Vec<usize> = (0..n).map(|k| d.get_or_add_non_terminal(&format!("e{k}"))).collect();
            let zt = d.get_or_add_terminal("z");
            let all: BTreeSet<M> = (0..n).map(m).chain(z()).collect();
            let mut body = es.clone();
            body.push(zt);
            out.push(BigRule { id: s, first: all.clone(), follow: end(), alts: vec![(body, all)] });
            for k in 0..n {
                let t = d.get_or_add_terminal(&(ch(k).to_string() + "x"));
                let after: BTreeSet<M> = (k + 1..n).map(m).chain(z()).collect();
                let own = BTreeSet::from([m(k)]);
                out.push(BigRule { id: es[k], first: own.iter().cloned().chain(["EMPTY".into()]).collect(), follow: after.clone(), alts: vec![(vec![], after), (vec![t], own)] });
            }
        }
        // rules that can be empty at the ends and in the middle of an alternative of n elements
        3 => {
            let s = d.get_or_add_non_terminal("start");
            let a = d.get_or_add_terminal("a");
            let mut body = vec![];
            let mut opts = vec![];
            for (k, (name, after)) in [("u", ","), ("w", "!"), ("v", "?"), ("x", "")].into_iter().enumerate() {
                if k > 0 {
                    body.extend(std::iter::repeat(a).take(n / 3));
                }
                let r = d.get_or_add_non_terminal(name);
                body.push(r);
                let mut f = end();
                if !after.is_empty() {
                    body.push(d.get_or_add_terminal(after));
                    f = BTreeSet::from([format!("{:?}", after.chars().next().unwrap())]);
                }
                let own = BTreeSet::from([format!("{:?}", name.chars().next().unwrap())]);
                let t = d.get_or_add_terminal(name);
                opts.push(BigRule { id: r, first: own.iter().cloned().chain(["EMPTY".into()]).collect(), follow: f.clone(), alts: vec![(vec![t], own), (vec![], f)] });
            }
            let first = BTreeSet::from(["'u'".to_string(), "','".to_string()]);
            out.push(BigRule { id: s, first: first.clone(), follow: end(), alts: vec![(body, first)] });
            out.extend(opts);
        }
        // one rule n times in an alternative, each time before another character
        4 => {
            let s = d.get_or_add_non_terminal("start");
            let w = d.get_or_add_non_terminal("w");
            let body: Vec<usize> = (0..n).flat_map(|k| [w, d.get_or_add_terminal(&ch(k).to_string())]).collect();
            let first = BTreeSet::from([m(0), "'z'".to_string()]);
            out.push(BigRule { id: s, first: first.clone(), follow: end(), alts: vec![(body, first)] });
            let zt = d.get_or_add_terminal("z");
            let after = set(&mut (0..n).map(m));
            out.push(BigRule { id: w, first: ["EMPTY".to_string(), "'z'".to_string()].into(), follow: after.clone(), alts: vec![(vec![], after), (vec![zt], z())] });
        }
        // one rule in n alternatives, each time before another character
        5 => {
            let s = d.get_or_add_non_terminal("start");
            let w = d.get_or_add_non_terminal("w");
            let alts = (0..n).map(|k| (vec![d.get_or_add_terminal(&ch(k).to_string()), w, d.get_or_add_terminal(&ch(n + k).to_string())], BTreeSet::from([m(k)]))).collect();
            out.push(BigRule { id: s, first: set(&mut (0..n).map(m)), follow: end(), alts });
            let zt = d.get_or_add_terminal("z");
            let after = set(&mut (n..2 * n).map(m));
            out.push(BigRule { id: w, first: ["EMPTY".to_string(), "'z'".to_string()].into(), follow: after.clone(), alts: vec![(vec![], after), (vec![zt], z())] });
        }
        // n rules that end in the same rule, each followed by another character
        6 => {
            if n > 5000 {
                return None;
            }
            let s = d.get_or_add_non_terminal("start");
            let w = d.get_or_add_non_terminal("w");
            let rs: Vec<usize> = (0..n).map(|k| d.get_or_add_non_terminal(&format!("r{k}"))).collect();
            let alts = (0..n).map(|k| (vec![rs[k], d.get_or_add_terminal(&ch(n + k).to_string())], BTreeSet::from([m(k)]))).collect();
            out.push(BigRule { id: s, first: set(&mut (0..n).map(m)), follow: end(), alts });
            for k in 0..n {
                let own = BTreeSet::from([m(k)]);
                out.push(BigRule { id: rs[k], first: own.clone(), follow: BTreeSet::from([m(n + k)]), alts: vec![(vec![d.get_or_add_terminal(&ch(k).to_string()), w], own)] });
            }
            let zt = d.get_or_add_terminal("z");
            let after = set(&mut (n..2 * n).map(m));
            out.push(BigRule { id: w, first: ["EMPTY".to_string(), "'z'".to_string()].into(), follow: after.clone(), alts: vec![(vec![], after), (vec![zt], z())] });
        }
        // a ring of n rules that hand on what follows them
        _ => {
            if n > 5000 {
                return None;
            }
            let es: Vec<usize> = (0..n).map(|k| d.get_or_add_non_terminal(&format!("e{k}"))).collect();
            let zt = d.get_or_add_terminal("z");
            let follow: BTreeSet<M> = end().into_iter().chain(z()).collect();
            for k in 0..n {
                let t = d.get_or_add_terminal(&ch(k).to_string());
                let own = BTreeSet::from([m(k)]);
                let mut alts = vec![(vec![t, es[(k + 1) % n]], own.clone())];
                let mut first = own;
                if k == n / 2 {
                    let q = d.get_or_add_terminal("q");
                    alts.push((vec![q, es[0], zt], BTreeSet::from(["'q'".to_string()])));
                    first.insert("'q'".into());
                }
                if k == n - 1 {
                    alts.push((vec![], follow.clone()));
                    first.insert("EMPTY".into());
                }
                out.push(BigRule { id: es[k], first, follow: follow.clone(), alts });
            }
        }
    }
    for r in &out {
        for a in &r.alts {
            d.add_production(r.id, a.0.clone());
        }
    }
    Some((d, out))
}
pub fn diff(got: &BTreeSet<M>, want: &BTreeSet<M>) -> String {
    let few = |a: &BTreeSet<M>, b: &BTreeSet<M>| a.difference(b).take(5).cloned().collect::<Vec<_>>().join(" ");
    format!("has {} members, expected {}; too many: {}; missing: {}", got.len(), want.len(), few(got, want), few(want, got))
}
pub fn each_sets(check: impl Fn(ParserData<NullVm>, &[BigRule]) -> Result<(), String> + Send + Sync + 'static) -> crate::run::Family {
    crate::run::family(
        "huge",
        "two rules of n optional characters in a row (n around 128, 256, 4096, 32768, 65536 and 70000), n optional rules in a row (n<=300), rings of n rules (n<5000), rules that can be empty throughout an alternative of n elements, one rule before n characters in one alternative or in n, n rules ending in one (n<5000)",
        SIZES.len() as u64 * SET_SHAPES,
        move |i, st| {
            let (shape, n) = (i % SET_SHAPES, SIZES[(i / SET_SHAPES) as usize]);
            let Some((d, rules)) = big_sets(shape, n) else { return Ok(()) };
            st.states += rules.len() as u64;
            st.traces += 1;
            st.transitions += rules.iter().map(|r| r.alts.len() as u64).sum::<u64>();
            crate::run::catch(|| check(d, &rules)).unwrap_or_else(|p| Err(p.to_string())).map_err(|e| format!("{e}\n(large grammar {shape}, n={n})"))
        },
    )
}
