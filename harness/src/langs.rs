//! Shared driver of the checks that relate parsing to the language of a grammar.
use crate::fam::{self, GFam};
use crate::gram::*;
use crate::real;
use crate::refread;
use crate::run::*;

/// One script with what is right about it.
pub struct Case {
    pub s: Vec<char>,
    pub text: String,
    pub accept: bool,
    /// length of the longest prefix some text of the grammar begins with
    pub viable: usize,
    pub tree: Option<DTree>,
}
impl From<Probe> for Case {
    fn from(p: Probe) -> Case {
        Case { text: p.s.iter().collect(), s: p.s, accept: p.accept, viable: p.viable, tree: p.tree }
    }
}
pub fn case_of(g: &Gram, an: &An, s: Vec<char>, trees: bool) -> Case {
    let full = Chart::new(g, an, &s);
    let accept = full.accepts();
    let mut viable = s.len();
    if !accept && !full.viable() {
        // viability is closed under prefixes
        let (mut lo, mut hi) = (0, s.len());
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            if Chart::new(g, an, &s[..m]).viable() {
                lo = m
            } else {
                hi = m
            }
        }
        viable = lo;
    }
    let tree = if accept && trees { Some(full.tree()) } else { None };
    Case { text: s.iter().collect(), accept, viable, tree, s }
}

pub struct Subject {
    pub g: Gram,
    pub an: An,
    /// the rule text handed to the code under test
    pub text: String,
    pub cases: Vec<Case>,
}

type Decide = dyn Fn(&Subject, &mut Stat) -> Result<(), String> + Sync + Send;

/// Families of (LL(1) grammar, scripts). `need` filters grammars (e.g. all rules productive).
pub fn families(
    tier: Tier,
    trees: bool,
    acts: bool,
    need: fn(&An) -> bool,
    fams: Vec<GFam>,
    decide: fn(&Subject, &mut Stat) -> Result<(), String>,
) -> Vec<Family> {
    let mut out = only(trees, acts, need, fams, decide);
    out.extend(crate::uni::langs(trees, acts, decide));
    out.push(reals(tier, trees, decide));
    out.push(longs(tier, trees, acts, decide));
    out
}
/// Families of (LL(1) grammar, scripts), without those that are the same everywhere.
pub fn only(trees: bool, acts: bool, need: fn(&An) -> bool, fams: Vec<GFam>, decide: fn(&Subject, &mut Stat) -> Result<(), String>) -> Vec<Family> {
    let mut out = vec![];
    for f in fams {
        let mk = f.make.clone();
        let (sg, ml) = (f.sigma.clone(), f.maxlen);
        out.push(family(f.name, &f.bound, f.n, move |i, st| {
            let mut g = mk(i);
            let an = analyse(&g);
            if !an.ll1() || !need(&an) {
                st.skipped += 1;
                return Ok(());
            }
            if acts {
                put_acts(&mut g, i);
            }
            let sigma = sg.clone().unwrap_or_else(|| fam::sigma(&g));
            let cases: Vec<Case> =
                probes(&g, &an, &sigma, ml, 20_000, trees).into_iter().map(Case::from).collect();
            let text = g.render();
            let sub = Subject { g, an, text, cases };
            count(&sub, st);
            decide(&sub, st)
        }));
    }
    out
}
/// Grammars and sentences that grow with n, in one dimension each.
pub const GROW: usize = 8;
pub fn grow(which: usize, n: usize) -> (Gram, Vec<char>) {
    let rep = |t: &str, n: usize| t.repeat(n);
    let (text, s): (String, String) = match which {
        // nesting at the end, in the middle, and as a list
        0 => ("start -> \"a\" start | #;".into(), rep("a", n)),
        1 => ("start -> \"(\" start \")\" | \"x\";".into(), rep("(", n) + "x" + &rep(")", n)),
        2 => (
            "start -> item rest; rest -> \",\" item rest | #; item -> \"id\" | \"n\" num; num -> \"1\" num | #;".into(),
            (0..n).map(|k| if k % 3 == 0 { "id".to_string() } else { rep("1", k % 4).replacen("", "n", 1) }).collect::<Vec<_>>().join(","),
        ),
        // a rule of many elements
        3 => (format!("start -> {}; e -> \"a\" | \"b\" | #;", rep("e \"-\" ", n)), (0..n).map(|k| ["a-", "-", "b-"][k % 3]).collect()),
        // a long terminal, a long name
        4 => (format!("start -> \"{}\" tail; tail -> \"!\" | #;", rep("ab", n)), rep("ab", n) + if n % 2 == 0 { "!" } else { "" }),
        5 => (format!("start -> n{0} \"z\"; n{0} -> \"x\" n{0} | #;", rep("x_1", n)), "xxxz".into()),
        // empty nodes, characters of several bytes
        6 => ("start -> \"a\" e e f start | #; e -> #; f -> e \"\" e;".into(), rep("a", n)),
        _ => ("start -> \"é\" start | \"日本\" start \"😀\" | \"z\";".into(), rep("é日本", n) + "z" + &rep("😀", n)),
    };
    (refread::gram_of(&text), s.chars().collect())
}
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    v.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096, 10000]);
    v.retain(|n| *n <= max);
    v
}
/// Long scripts: sentences that grow, cut off or with a foreign character at chosen places.
fn longs(tier: Tier, trees: bool, acts: bool, decide: fn(&Subject, &mut Stat) -> Result<(), String>) -> Family {
    let max = match (tier, acts) {
        (Tier::Quick, false) => 300,
        (Tier::Quick, true) => 70,
        (_, false) => 2000,
        (_, true) => 260,
    };
    let sz = sizes(max);
    family(
        "long",
        &format!("{GROW} grammars whose sentences grow in one dimension (nesting, lists, elements, terminal, name, empty nodes, multi-byte characters), sizes 1..40 and around powers of two up to {max}: the sentence; cut off, or with a foreign, doubled or missing character, at the first and last places, around the middle and around the powers of two"),
        (sz.len() * GROW) as u64,
        move |i, st| {
            let n = sz[i as usize / GROW];
            let (mut g, s) = grow(i as usize % GROW, n);
            let an = analyse(&g);
            assert!(an.ll1() && an.all_productive());
            if acts {
                put_acts(&mut g, i);
            }
            let l = s.len();
            let mut places: Vec<usize> = vec![0, 1, 2, l / 2, l / 2 + 1, l.saturating_sub(2), l.saturating_sub(1), l];
            places.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]);
            if l <= 40 {
                places.extend(0..=l);
            }
            places.retain(|p| *p <= l);
            places.sort();
            places.dedup();
            let mut scripts = vec![s.clone()];
            for &p in &places {
                scripts.push(s[..p].to_vec());
                for c in ['ø', 'a', ')', '\u{0}'] {
                    scripts.push([&s[..p], &[c], &s[p..]].concat());
                    if p < l {
                        scripts.push([&s[..p], &[c], &s[p + 1..]].concat());
                    }
                }
                if p < l {
                    scripts.push([&s[..p], &s[p + 1..]].concat());
                    scripts.push([&s[..p + 1], &s[p..]].concat());
                }
            }
            scripts.sort();
            scripts.dedup();
            let text = g.render();
            let cases = scripts
                .into_iter()
                .map(|s| {
                    let m = machine(&g, &an, &s);
                    Case {
                        text: s.iter().collect(),
                        accept: m.error.is_none(),
                        viable: m.error.unwrap_or(s.len()),
                        tree: if trees { machine_tree(&g, &an, &s) } else { None },
                        s,
                    }
                })
                .collect();
            let sub = Subject { g, an, text, cases };
            count(&sub, st);
            decide(&sub, st)
        },
    )
}
/// Sections on a subset of the rules that varies with the case index: every rule number takes
/// every value of "no section, 1, some more instructions" as the index varies.
pub fn put_acts(g: &mut Gram, i: u64) {
    let mut k = i;
    let many = if g.nts.len() > 12 { 2 } else { 11 };
    for r in 0..g.nts.len() {
        g.acts[r] = match k % 3 {
            0 => Some("1".into()),
            1 => Some(["2", "3", "4", "5", "7", "8", "9", "16", "17", "20", "0"][(i / 7 + r as u64) as usize % many].into()),
            _ => None,
        };
        k = k / 3 + 1;
    }
}
pub fn count(s: &Subject, st: &mut Stat) {
    st.states += s.cases.len() as u64;
    st.transitions += s.cases.iter().map(|c| c.s.len() as u64).sum::<u64>();
    for c in &s.cases {
        st.count(if c.accept {
            "sentences"
        } else if c.viable == c.s.len() {
            "premature ends"
        } else {
            "offending characters"
        });
    }
    st.sample(|| {
        let acc: Vec<&str> = s.cases.iter().filter(|c| c.accept).take(3).map(|c| c.text.as_str()).collect();
        format!("{} | scripts tried: {}, sentences e.g. {:?}", s.text.trim().replace('\n', " "), s.cases.len(), acc)
    });
}
/// Realistic grammars; scripts at edit distance one from their sentences (thorough: two, for short ones).
pub fn reals(tier: Tier, trees: bool, decide: fn(&Subject, &mut Stat) -> Result<(), String>) -> Family {
    let rs = real::real();
    let mut jobs = vec![];
    for (k, r) in rs.iter().enumerate() {
        for (j, s) in r.sentences.iter().enumerate() {
            let n = if tier == Tier::Thorough && s.chars().count() <= 14 { s.chars().count() + 1 } else { 1 };
            for part in 0..n {
                jobs.push((k, j, part, n));
            }
        }
    }
    let d: Box<Decide> = Box::new(decide);
    family(
        "realistic",
        "realistic grammars (arithmetic, JSON, s-expressions, statements, calculator, optional chains, Unicode, ignorables): all scripts at edit distance <=1 from their sentences (thorough: <=2 for sentences up to 14 characters)",
        jobs.len() as u64,
        move |i, st| {
            let (k, j, part, n) = jobs[i as usize];
            let r = &real::real()[k];
            let (g, an) = real::with_gram(r);
            let sigma = fam::sigma(&g);
            let s: Vec<char> = r.sentences[j].chars().collect();
            let mut scripts = real::edits(&s, &sigma);
            if n > 1 && part > 0 {
                // second edits of every n-th first edit
                let firsts: Vec<Vec<char>> =
                    scripts.iter().enumerate().filter(|(x, _)| x % (n - 1) == part - 1).map(|x| x.1.clone()).collect();
                scripts = firsts.iter().flat_map(|f| real::edits(f, &sigma)).collect();
                scripts.sort();
                scripts.dedup();
            }
            let mut cases = vec![];
            for s in scripts {
                cases.push(case_of(&g, &an, s, trees));
            }
            let sub = Subject { text: r.text.clone(), g, an, cases };
            count(&sub, st);
            d(&sub, st)
        },
    )
}
