//! Families of grammars, each an indexed finite space.
use crate::gram::{Alt, Gram, Sym};
use crate::run::Tier;
use std::sync::Arc;

#[derive(Clone)]
pub struct GFam {
    pub name: &'static str,
    pub bound: String,
    pub n: u64,
    pub make: Arc<dyn Fn(u64) -> Gram + Sync + Send>,
    /// characters scripts are made of (None: the characters of the terminals plus a foreign one)
    pub sigma: Option<Vec<char>>,
    pub maxlen: usize,
}

pub fn alts(syms: &[Sym], maxlen: usize) -> Vec<Alt> {
    let mut all: Vec<Alt> = vec![vec![]];
    let mut last: Vec<Alt> = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = vec![];
        for a in &last {
            for s in syms {
                let mut b = a.clone();
                b.push(*s);
                next.push(b);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
/// All sequences of 1..=max alternatives.
pub fn rules(alts: &[Alt], max: usize) -> Vec<Vec<Alt>> {
    let mut out: Vec<Vec<Alt>> = vec![];
    let mut last: Vec<Vec<Alt>> = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|l| alts.iter().map(move |a| [&l[..], &[a.clone()]].concat())).collect();
        out.extend(last.iter().cloned());
    }
    out
}
/// All multisets of 1..=max alternatives, in increasing order.
pub fn rule_sets(alts: &[Alt], max: usize) -> Vec<Vec<Alt>> {
    let mut out = vec![];
    let mut last: Vec<Vec<usize>> = (0..alts.len()).map(|i| vec![i]).collect();
    for k in 0..max {
        for l in &last {
            out.push(l.iter().map(|i| alts[*i].clone()).collect());
        }
        if k + 1 < max {
            let mut next = vec![];
            for l in &last {
                for j in *l.last().unwrap()..alts.len() {
                    let mut m = l.clone();
                    m.push(j);
                    next.push(m);
                }
            }
            last = next;
        }
    }
    out
}

impl GFam {
    /// For checks that reorder the rules themselves: the rules of a `product` family in one order only.
    pub fn forwards(mut self) -> GFam {
        const B: &str = ", rules forwards and backwards";
        assert!(self.bound.contains(B));
        self.bound = self.bound.replace(B, "");
        self.n /= 2;
        self
    }
}
fn product(name: &'static str, bound: &str, nts: &'static [&'static str], ts: &'static [&'static str], opts: Vec<Vec<Vec<Alt>>>, maxlen: usize) -> GFam {
    let half: u64 = opts.iter().map(|o| o.len() as u64).product();
    let n = if opts.len() > 1 { 2 * half } else { half };
    let bound = format!("{bound}, in every order of the alternatives, rules forwards and backwards; scripts up to length {maxlen}");
    GFam {
        name,
        bound,
        n,
        make: Arc::new(move |mut i| {
            let backwards = i >= half;
            i %= half;
            let mut rules = vec![];
            for o in &opts {
                rules.push(o[(i % o.len() as u64) as usize].clone());
                i /= o.len() as u64;
            }
            let mut g = Gram::new(nts, ts, rules);
            if backwards {
                g.order.reverse();
            }
            g
        }),
        sigma: None,
        maxlen,
    }
}

use Sym::{N, T};

/// All grammars with two rules of at most two alternatives of at most two elements, two terminals.
pub fn two(maxlen: usize) -> GFam {
    let a = alts(&[T(0), T(1), N(0), N(1)], 2);
    let r = rules(&a, 2);
    product("two", "2 rules, <=2 alternatives, <=2 elements, 2 terminals: all", &["start", "A"], &["a", "b"], vec![r.clone(), r], maxlen)
}
/// Three rules; start has one alternative of <=3 elements.
pub fn three(tier: Tier, maxlen: usize) -> GFam {
    let s: Vec<Vec<Alt>> = alts(&[T(0), N(1), N(2)], 3).into_iter().map(|x| vec![x]).collect();
    let (ra, rb, b) = if tier == Tier::Quick {
        (
            rules(&alts(&[T(0), T(1), N(2)], 2), 2),
            rules(&alts(&[T(0), T(1), N(1)], 2), 2),
            "3 rules: start one alternative <=3 elements over {a,A,B}; A,B <=2 alternatives <=2 elements over {a,b,B} and {a,b,A}: all",
        )
    } else {
        let r = rules(&alts(&[T(0), T(1), N(1), N(2)], 2), 2);
        (
            r.clone(),
            r,
            "3 rules: start one alternative <=3 elements over {a,A,B}; A,B <=2 alternatives <=2 elements over {a,b,A,B}: all",
        )
    };
    product("three", b, &["start", "A", "B"], &["a", "b"], vec![s, ra, rb], maxlen)
}
/// One rule with up to three alternatives.
pub fn one(tier: Tier, maxlen: usize) -> GFam {
    let k = if tier == Tier::Quick { 2 } else { 3 };
    let r = rules(&alts(&[T(0), T(1), T(2), N(0)], k), 3);
    product("one", &format!("1 rule, <=3 alternatives, <={k} elements, 3 terminals: all"), &["start"], &["a", "b", "c"], vec![r], maxlen)
}
/// Multi-character terminals sharing characters.
pub fn words(tier: Tier, maxlen: usize) -> GFam {
    let ts: &[Sym] = &[T(0), T(1), T(2), T(3), N(1)];
    let s: Vec<Vec<Alt>> = rules(&alts(ts, if tier == Tier::Quick { 2 } else { 3 }), if tier == Tier::Quick { 2 } else { 1 });
    let a = rules(&alts(&[T(0), T(1), T(2), T(3)], 2), 2);
    product(
        "words",
        "2 rules over the terminals \"ab\", \"ba\", \"aab\", \"\": start <=2 alternatives <=2 elements (thorough: 1 alternative <=3), A <=2 alternatives <=2 elements: all",
        &["start", "A"],
        &["ab", "ba", "aab", ""],
        vec![s, a],
        maxlen,
    )
}

const ODD: &[&str] = &[
    "x", "xy", "é", "éa", "日本", "😀", " ", "\n", ";", "}", "->", "#", "|", "\\\"", "\\\\", "$[", "", "start", "{", "\u{0}", "e\u{301}", "\t", "ab\u{7f}",
];
/// Unusual terminals: start -> t1 A t2; A -> t3 | #.
pub fn odd() -> GFam {
    let k = ODD.len() as u64;
    GFam {
        name: "odd",
        bound: format!("start -> t1 A t2; A -> t3 | #; for all triples of {k} unusual terminals (empty, non-ASCII, escapes, meta characters); scripts up to length 7 over their characters"),
        n: k * k * k,
        make: Arc::new(move |i| {
            let t = |j: u64| ODD[(j % k) as usize].to_string();
            let ts = vec![t(i), t(i / k), t(i / k / k)];
            let mut u: Vec<String> = vec![];
            let mut ix = vec![];
            for x in ts {
                let p = match u.iter().position(|y| *y == x) {
                    Some(p) => p,
                    None => {
                        u.push(x);
                        u.len() - 1
                    }
                };
                ix.push(p);
            }
            let names: Vec<&str> = u.iter().map(|s| s.as_str()).collect();
            Gram::new(&["start", "A"], &names, vec![vec![vec![T(ix[0]), N(1), T(ix[1])]], vec![vec![T(ix[2])], vec![]]])
        }),
        sigma: None,
        maxlen: 7,
    }
}

/// Chains: N_i -> N_{i+1} M_i, M_i -> "m_i" | # (bit set) or "m_i"; N_d -> "n" | #.
pub fn chain(maxd: u64) -> GFam {
    // index: d in 1..=maxd, mask < 2^(d+1), 3 rule orders
    let mut total = 0;
    let mut offs = vec![];
    for d in 1..=maxd {
        offs.push(total);
        total += 3 * (1u64 << (d + 1));
    }
    GFam {
        name: "chain",
        bound: format!("chains N_i -> N_i+1 M_i of length 1..{maxd}, every subset of optional parts, 3 rule orders"),
        n: total,
        make: Arc::new(move |i| {
            let k = offs.iter().rposition(|o| *o <= i).unwrap();
            let d = k + 1;
            let r = i - offs[k];
            let (mask, ord) = (r / 3, r % 3);
            let letters = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"];
            let mut nts: Vec<String> = vec!["start".into()];
            let mut rules: Vec<Vec<Alt>> = vec![vec![vec![N(1), T(0)]]];
            let ts: Vec<&str> = ["z"].into_iter().chain(letters[..=d].iter().copied()).collect();
            // N_1..N_{d+1} at 1..=d+1, M_1..M_d at d+2..
            for j in 1..=d + 1 {
                nts.push(format!("N{j}"));
            }
            for j in 1..=d {
                nts.push(format!("M{j}"));
            }
            for j in 1..=d {
                rules.push(vec![vec![N(j + 1), N(d + 1 + j)]]);
            }
            let mut last = vec![vec![T(1)]];
            if mask & 1 == 1 {
                last.push(vec![]);
            }
            rules.push(last);
            for j in 1..=d {
                let mut m = vec![vec![T(1 + j)]];
                if mask >> j & 1 == 1 {
                    m.insert(0, vec![]);
                }
                rules.push(m);
            }
            let names: Vec<&str> = nts.iter().map(|s| s.as_str()).collect();
            let mut g = Gram::new(&names, &ts, rules);
            let n = g.nts.len();
            match ord {
                1 => g.order.reverse(),
                2 => {
                    let mut o: Vec<usize> = (0..n).step_by(2).collect();
                    o.extend((1..n).step_by(2).rev());
                    g.order = o;
                }
                _ => {}
            }
            g
        }),
        sigma: None,
        maxlen: 3,
    }
}
/// Rings: start -> N_0 "z"; N_i -> "a_i" N_{i+1 mod d} | "b_i" N_{i+s mod d} | "e_i".
pub fn ring(maxd: u64) -> GFam {
    let mut all = vec![];
    for d in 1..=maxd {
        for s in 0..d {
            for v in 0..4u64 {
                all.push((d, s, v));
            }
        }
    }
    GFam {
        name: "ring",
        bound: format!("rings of 1..{maxd} rules handing the end of the text on, every skip distance, 4 variants (optional ends, rule order)"),
        n: all.len() as u64,
        make: Arc::new(move |i| {
            let (d, s, v) = all[i as usize];
            let d = d as usize;
            let mut nts: Vec<String> = vec!["start".into()];
            for j in 0..d {
                nts.push(format!("R{}", (j * 5) % 97));
            }
            let pool: Vec<String> = (0..3 * d).map(|k| char::from_u32(0x4e00 + k as u32).unwrap().to_string()).collect();
            let mut ts: Vec<&str> = vec!["z"];
            ts.extend(pool.iter().map(|s| s.as_str()));
            let mut rules = vec![vec![vec![N(1), T(0)]]];
            for j in 0..d {
                let t = 1 + 3 * j;
                let mut r = vec![vec![T(t), N(1 + (j + 1) % d)], vec![T(t + 1), N(1 + (j + s as usize) % d)]];
                if v & 1 == 0 {
                    r.push(vec![T(t + 2)]);
                } else {
                    r.push(vec![]);
                }
                rules.push(r);
            }
            let names: Vec<&str> = nts.iter().map(|s| s.as_str()).collect();
            let mut g = Gram::new(&names, &ts, rules);
            if v & 2 == 2 {
                g.order.reverse();
            }
            g
        }),
        sigma: None,
        maxlen: 2,
    }
}
const NAMES: &[&str] = &["start", "a", "A", "start_", "start2", "s", "ünï", "b_1", "x2y", "日本", "IGNORE"];
/// Rule names: start rule + two others under all names, terminals spelled like rules.
pub fn names() -> GFam {
    let k = NAMES.len() as u64;
    let mut pairs = vec![];
    for i in 1..k {
        for j in 1..k {
            if i != j {
                for t in 0..k {
                    pairs.push((i, j, t));
                }
            }
        }
    }
    GFam {
        name: "names",
        bound: "start -> X \"t\" Y; X -> \"t\" Y | \"b\"; Y -> \"a\" X | #; for all rule names X,Y and terminals t from 11 names".into(),
        n: pairs.len() as u64,
        make: Arc::new(move |i| {
            let (x, y, t) = pairs[i as usize];
            let t = NAMES[t as usize];
            let b = if t.starts_with('b') { "q" } else { "b" };
            let ts: Vec<&str> = if t == "a" { vec![t, b] } else { vec![t, b, "a"] };
            let aa = if t == "a" { 0 } else { 2 };
            Gram::new(
                &["start", NAMES[x as usize], NAMES[y as usize]],
                &ts,
                vec![vec![vec![N(1), T(0), N(2)]], vec![vec![T(0), N(2)], vec![T(1)]], vec![vec![T(aa), N(1)], vec![]]],
            )
        }),
        sigma: None,
        maxlen: 7,
    }
}

/// Sequences of elements of five kinds, at every length up to `maxk`.
pub fn runs(maxk: u32) -> GFam {
    let kinds = 5u64;
    let n: u64 = (1..=maxk).map(|k| kinds.pow(k)).sum();
    GFam {
        name: "runs",
        bound: format!("start -> X \"z\" or start -> X; X -> E1..Ek, k=1..{maxk}, each element a rule that can be empty, directly or through another rule, a rule that cannot, a terminal or the empty terminal: all; scripts up to length 3"),
        n: n * 2,
        make: Arc::new(move |i| {
            let (mut r, tail) = (i / 2, i % 2 == 0);
            let mut k = 1;
            while r >= kinds.pow(k) {
                r -= kinds.pow(k);
                k += 1;
            }
            let letters = ["a", "b", "c", "d", "e", "f", "g", "h"];
            let mut ts: Vec<&str> = vec!["z", ""];
            ts.extend(&letters[..k as usize]);
            let mut nts: Vec<String> = vec!["start".into(), "X".into()];
            let mut rules: Vec<Vec<Alt>> = vec![vec![if tail { vec![N(1), T(0)] } else { vec![N(1)] }], vec![]];
            let mut seq = vec![];
            for p in 0..k as usize {
                let kind = r % kinds;
                r /= kinds;
                let t = T(2 + p);
                match kind {
                    0 | 1 | 3 => {
                        seq.push(N(nts.len()));
                        nts.push(format!("E{p}"));
                        match kind {
                            0 => rules.push(vec![vec![t], vec![]]),
                            1 => rules.push(vec![vec![t]]),
                            _ => {
                                rules.push(vec![vec![N(nts.len())]]);
                                nts.push(format!("M{p}"));
                                rules.push(vec![vec![], vec![t]]);
                            }
                        }
                    }
                    2 => seq.push(t),
                    _ => seq.push(T(1)),
                }
            }
            rules[1] = vec![seq];
            let names: Vec<&str> = nts.iter().map(|s| s.as_str()).collect();
            let mut g = Gram::new(&names, &ts, rules);
            if i / 6 % 2 == 1 {
                g.order.reverse();
            }
            g
        }),
        sigma: None,
        maxlen: 3,
    }
}
/// Grammars that are large in one dimension.
pub fn wide() -> GFam {
    let mut sizes: Vec<usize> = (1..=40).collect();
    sizes.extend([63, 64, 65, 100]);
    let shapes = 10usize;
    GFam {
        name: "wide",
        bound: "start -> X \"z\"; X of n elements or n alternatives (rules that can or cannot be empty, terminals), a chain of n rules, terminals of n characters, a collision of the first with the last alternative; n=1..40, 63, 64, 65, 100; scripts up to length 4 over the first, middle and last characters".into(),
        n: (sizes.len() * shapes) as u64,
        make: Arc::new(move |i| {
            let (n, shape) = (sizes[i as usize / shapes], i as usize % shapes);
            let pool: Vec<String> = (0..n).map(|k| char::from_u32(0x4e00 + k as u32).unwrap().to_string()).collect();
            let long = "ab".repeat(n);
            let longer = format!("{long}b");
            let mut nts: Vec<String> = vec!["start".into(), "X".into()];
            let mut rules: Vec<Vec<Alt>> = vec![vec![vec![N(1), T(0)]], vec![]];
            let mut ts: Vec<&str> = vec!["z"];
            ts.extend(pool.iter().map(|s| s.as_str()));
            let t = |k: usize| T(1 + k);
            let sub = |nts: &mut Vec<String>, rules: &mut Vec<Vec<Alt>>, r: Vec<Alt>| {
                nts.push(format!("E{}", nts.len()));
                rules.push(r);
                N(nts.len() - 1)
            };
            match shape {
                0 | 1 | 2 => {
                    let mut seq = vec![];
                    for k in 0..n {
                        let empty = shape == 0 || shape == 1 && k + 1 < n;
                        let r = if empty { vec![vec![t(k)], vec![]] } else { vec![vec![t(k)]] };
                        seq.push(sub(&mut nts, &mut rules, r));
                    }
                    rules[1] = vec![seq];
                }
                3 => rules[1] = (0..n).map(|k| vec![t(k)]).collect(),
                4 | 5 => {
                    for k in 0..n {
                        let r = if shape == 5 && k + 1 == n { vec![vec![], vec![t(k)]] } else { vec![vec![t(k)]] };
                        let e = sub(&mut nts, &mut rules, r);
                        rules[1].push(vec![e]);
                    }
                }
                6 => {
                    for k in 0..n {
                        let e = sub(&mut nts, &mut rules, vec![]);
                        rules[1 + k] = vec![vec![e]];
                    }
                    rules[1 + n] = vec![vec![t(0)], vec![]];
                }
                7 => {
                    ts.push(&long);
                    ts.push(&longer);
                    rules[1] = vec![vec![T(n + 1)], vec![t(0), T(n + 2)]];
                }
                8 => {
                    rules[1] = (0..n).map(|k| vec![t(k)]).collect();
                    rules[1].push(vec![t(0), t(0)]);
                }
                _ => {
                    rules[1] = (0..n).map(|k| vec![t(k), N(1)]).collect();
                    rules[1].push(vec![]);
                }
            }
            let names: Vec<&str> = nts.iter().map(|s| s.as_str()).collect();
            let mut g = Gram::new(&names, &ts, rules);
            if n % 2 == 0 {
                g.order.reverse();
            }
            g
        }),
        sigma: None,
        maxlen: 4,
    }
}

/// The characters scripts are made of: those of the terminals, or some of them if there are many,
/// and one that does not belong, which differs from grammar to grammar.
pub fn sigma(g: &Gram) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    for t in &g.ts {
        for c in t.chars() {
            if !v.contains(&c) {
                v.push(c);
            }
        }
    }
    if v.len() > 24 {
        v = vec![v[0], v[1], v[v.len() / 2], v[v.len() - 1]];
    }
    let size: usize = g.rules.iter().flatten().map(|a| 1 + 2 * a.len() + a.iter().filter(|s| matches!(s, Sym::T(_))).count()).sum();
    let other: Vec<char> = v
        .iter()
        .map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() })
        .filter(|c| !v.contains(c))
        .take(2)
        .collect();
    let pool: Vec<char> = ['ø', '\u{0}', ' ', '#', '\n', '\\'].into_iter().chain(other.into_iter().flat_map(|c| [c, c])).filter(|c| !v.contains(c)).collect();
    v.push(pool[size % pool.len()]);
    v
}

/// The grammar families most checks run over.
pub fn standard(tier: Tier) -> Vec<GFam> {
    let q = tier == Tier::Quick;
    vec![
        one(tier, 5),
        two(if q { 5 } else { 7 }),
        words(tier, if q { 6 } else { 8 }),
        odd(),
        names(),
        chain(if q { 6 } else { 9 }),
        ring(if q { 10 } else { 16 }),
        runs(if q { 5 } else { 6 }),
        wide(),
        three(tier, if q { 4 } else { 5 }),
    ]
}

/// Small families for checks that pay a process per script.
pub fn two_small(maxlen: usize) -> GFam {
    let r = rules(&alts(&[T(0), T(1), N(0), N(1)], 1), 2);
    product("two-small", "2 rules, <=2 alternatives, <=1 element, 2 terminals: all", &["start", "A"], &["a", "b"], vec![r.clone(), r], maxlen)
}
pub fn three_small(maxlen: usize) -> GFam {
    let s: Vec<Vec<Alt>> = alts(&[T(0), N(1), N(2)], 2).into_iter().map(|x| vec![x]).collect();
    let r = rules(&alts(&[T(0), T(1), N(1), N(2)], 1), 2);
    product(
        "three-small",
        "3 rules: start one alternative <=2 elements over {a,A,B}; A,B <=2 alternatives <=1 element over {a,b,A,B}: all",
        &["start", "A", "B"],
        &["a", "b"],
        vec![s, r.clone(), r],
        maxlen,
    )
}

// ---- grammars that are refused

/// `two` with references to a rule that is not defined, or without the start rule.
pub fn undefined() -> GFam {
    let a = alts(&[T(0), N(1), N(2)], 2);
    let r = rules(&a, 2);
    let k = r.len() as u64;
    GFam {
        name: "undefined",
        bound: "2 rules over {a,A,B} with every subset of {start, A, B} defined, the rest missing: all".into(),
        n: k * k * 8,
        make: Arc::new(move |i| {
            let (x, y, m) = (i % k, i / k % k, i / k / k);
            let mut rules = vec![r[x as usize].clone(), r[y as usize].clone(), vec![vec![T(1)]]];
            for b in 0..3 {
                if m >> b & 1 == 1 {
                    rules[b] = vec![];
                }
            }
            Gram::new(&["start", "A", "B"], &["a", "b"], rules)
        }),
        sigma: None,
        maxlen: 0,
    }
}
/// Left recursion hidden behind d optional elements and over l rules.
pub fn hidden() -> GFam {
    let max = 12u64;
    GFam {
        name: "hidden",
        bound: "start -> R0; R_i -> O^d R_{i+1} \"x\" | \"t_i\" over cycles of 1..12 rules behind 0..12 elements O -> # | \"o\", O optional or not, cycle closed or open".into(),
        n: max * 13 * 4,
        make: Arc::new(move |i| {
            let (l, d, v) = ((i % max + 1) as usize, (i / max % 13) as usize, i / max / 13);
            let (opt, closed) = (v & 1 == 1, v & 2 == 2);
            let mut nts: Vec<String> = vec!["start".into(), "O".into()];
            let pool: Vec<String> = (0..l + 1).map(|k| char::from_u32(0x61 + k as u32).unwrap().to_string() + "9").collect();
            let mut ts: Vec<&str> = vec!["X", "O"];
            ts.extend(pool.iter().map(|s| s.as_str()));
            for k in 0..l {
                nts.push(format!("R{k}"));
            }
            let mut rules: Vec<Vec<Alt>> = vec![vec![vec![N(2)]], if opt { vec![vec![], vec![T(1)]] } else { vec![vec![T(1)]] }];
            for k in 0..l {
                let mut a: Alt = vec![N(1); d];
                if k + 1 < l {
                    a.push(N(3 + k));
                } else if closed {
                    a.push(N(2));
                } else {
                    a.push(T(2 + l));
                }
                a.push(T(0));
                rules.push(vec![a, vec![T(2 + k)]]);
            }
            let names: Vec<&str> = nts.iter().map(|s| s.as_str()).collect();
            Gram::new(&names, &ts, rules)
        }),
        sigma: None,
        maxlen: 0,
    }
}
/// A conflict between alternatives p and q of n, first or last, by FIRST or by FOLLOW.
pub fn positions() -> GFam {
    let n = 7u64;
    GFam {
        name: "positions",
        bound: "a rule with 7 alternatives; alternatives p and q collide directly, through a rule, through FOLLOW, or not at all: all p,q".into(),
        n: n * n * 5,
        make: Arc::new(move |i| {
            let (p, q, how) = ((i % n) as usize, (i / n % n) as usize, i / n / n);
            let mut alts: Vec<Alt> = (0..n as usize).map(|k| vec![T(k)]).collect();
            let mut via: Vec<Vec<Alt>> = vec![vec![vec![T(8)]], vec![vec![T(9)]]];
            match how {
                0 => alts[q] = vec![T(p), T(8)],
                1 => {
                    alts[q] = vec![N(2)];
                    via[0] = vec![vec![T(8)], vec![T(p)]];
                }
                2 => {
                    alts[q] = vec![N(2), N(3)];
                    via[0] = vec![vec![], vec![T(8)]];
                    via[1] = vec![vec![T(p)], vec![T(9)]];
                }
                3 => {
                    // optional alternative against what follows ("f")
                    alts[q] = vec![N(2), N(3)];
                    alts[p] = vec![T(7)];
                    via[0] = vec![vec![], vec![T(8)]];
                    via[1] = vec![vec![], vec![T(9)]];
                }
                _ => alts[q] = vec![T(10)],
            }
            Gram::new(
                &["start", "A", "P", "Q"],
                &["a", "b", "c", "d", "e", "g", "h", "f", "i", "j", "k"],
                vec![vec![vec![N(1), T(7)], vec![T(10), N(1), T(10)]], alts, via[0].clone(), via[1].clone()],
            )
        }),
        sigma: None,
        maxlen: 0,
    }
}

/// Three alternatives in the second rule.
pub fn two_wide() -> GFam {
    let s = rules(&alts(&[T(0), T(1), N(1)], 2), 2);
    let a = rules(&alts(&[T(0), T(1), N(0), N(1)], 2), 3);
    let (k, l) = (s.len() as u64, a.len() as u64);
    GFam {
        name: "two-wide",
        bound: "2 rules, start <=2, A <=3 alternatives of <=2 elements, 2 terminals: all".into(),
        n: k * l,
        make: Arc::new(move |i| Gram::new(&["start", "A"], &["a", "b"], vec![s[(i % k) as usize].clone(), a[(i / k) as usize].clone()])),
        sigma: None,
        maxlen: 3,
    }
}
