//! Grammars and the independent oracle: textbook fixpoints for nullable/FIRST/FOLLOW/predict, and a
//! chart (span fixpoint) for membership, viable prefixes and derivation trees. Nothing here uses
//! the code under test except `to_data`, which builds its input.
use henriks_parsing_project::parser_data::{ElementIndex, ParserData};
use henriks_parsing_project::vms::VM;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Sym {
    T(usize),
    N(usize),
}
pub type Alt = Vec<Sym>;

/// A grammar; `rules[i]` without alternatives means that rule i is referenced but not defined.
#[derive(Clone, Debug)]
pub struct Gram {
    pub nts: Vec<String>,
    pub ts: Vec<String>,
    pub rules: Vec<Vec<Alt>>,
    pub start: usize,
    /// order in which the rules are written
    pub order: Vec<usize>,
    /// action sections
    pub acts: Vec<Option<String>>,
}

impl Gram {
    pub fn new(nts: &[&str], ts: &[&str], rules: Vec<Vec<Alt>>) -> Gram {
        let n = nts.len();
        Gram {
            nts: nts.iter().map(|s| s.to_string()).collect(),
            ts: ts.iter().map(|s| s.to_string()).collect(),
            rules,
            start: 0,
            order: (0..n).collect(),
            acts: vec![None; n],
        }
    }
    pub fn defined(&self, i: usize) -> bool {
        !self.rules[i].is_empty()
    }
    pub fn alt_text(&self, a: &Alt) -> String {
        if a.is_empty() {
            return "#".into();
        }
        a.iter()
            .map(|s| match s {
                Sym::T(t) => format!("\"{}\"", self.ts[*t]),
                Sym::N(n) => self.nts[*n].clone(),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn render(&self) -> String {
        let mut o = String::new();
        for &i in &self.order {
            if !self.defined(i) {
                continue;
            }
            let alts: Vec<String> = self.rules[i].iter().map(|a| self.alt_text(a)).collect();
            let _ = write!(o, "{} -> {}", self.nts[i], alts.join(" | "));
            if let Some(a) = &self.acts[i] {
                let _ = write!(o, " {{{a}}}");
            }
            o.push_str(";\n");
        }
        o
    }
    /// The same grammar through the programmatic interface. Elements are registered in the order
    /// of appearance in the rule text.
    pub fn to_data<V: VM>(&self, mut inst: impl FnMut(usize) -> Vec<V::Tinstrution>) -> (ParserData<V>, Vec<ElementIndex>) {
        let mut d = ParserData::<V>::new();
        let mut ids = vec![usize::MAX; self.nts.len()];
        for &i in &self.order {
            if !self.defined(i) {
                continue;
            }
            let lhs = d.get_or_add_non_terminal(&self.nts[i]);
            ids[i] = lhs;
            for a in &self.rules[i] {
                let terms: Vec<usize> = a
                    .iter()
                    .map(|s| match s {
                        Sym::T(t) => d.get_or_add_terminal(&self.ts[*t]),
                        Sym::N(n) => {
                            let x = d.get_or_add_non_terminal(&self.nts[*n]);
                            ids[*n] = x;
                            x
                        }
                    })
                    .collect();
                d.add_production(lhs, terms);
            }
            if self.acts[i].is_some() {
                d.add_instructions(lhs, inst(i));
            }
        }
        for i in 0..self.nts.len() {
            if ids[i] == usize::MAX {
                ids[i] = d.get_or_add_non_terminal(&self.nts[i]);
            }
        }
        (d, ids)
    }
}

pub type Set = u128;
pub const EOI: u32 = 127;

#[derive(Clone)]
pub struct An {
    pub tch: Vec<Vec<char>>,
    /// distinct first characters of the terminals; bit i of a Set is alpha[i]
    pub alpha: Vec<char>,
    pub nullable: Vec<bool>,
    pub productive: Vec<bool>,
    pub first: Vec<Set>,
    pub follow: Vec<Set>,
    pub predict: Vec<Vec<Set>>,
    pub leftrec: bool,
    /// rules that reach themselves without consuming anything
    pub selfrec: Vec<bool>,
    pub undefined: bool,
    pub conflict: bool,
}

impl An {
    pub fn ll1(&self) -> bool {
        !self.leftrec && !self.undefined && !self.conflict
    }
    pub fn all_productive(&self) -> bool {
        self.productive.iter().all(|x| *x)
    }
    fn tbit(&self, t: usize) -> Set {
        match self.tch[t].first() {
            None => 0,
            Some(c) => 1 << self.alpha.iter().position(|x| x == c).unwrap(),
        }
    }
    /// FIRST and nullable of a sequence.
    pub fn seq(&self, a: &[Sym]) -> (Set, bool) {
        let mut s = 0;
        for x in a {
            match x {
                Sym::T(t) => {
                    s |= self.tbit(*t);
                    if !self.tch[*t].is_empty() {
                        return (s, false);
                    }
                }
                Sym::N(n) => {
                    s |= self.first[*n];
                    if !self.nullable[*n] {
                        return (s, false);
                    }
                }
            }
        }
        (s, true)
    }
    pub fn set_chars(&self, s: Set) -> Vec<Option<char>> {
        let mut v = vec![];
        for (i, c) in self.alpha.iter().enumerate() {
            if s >> i & 1 == 1 {
                v.push(Some(*c));
            }
        }
        if s >> EOI & 1 == 1 {
            v.push(None);
        }
        v
    }
    pub fn bit(&self, c: Option<char>) -> Set {
        match c {
            None => 1 << EOI,
            Some(c) => match self.alpha.iter().position(|x| *x == c) {
                Some(i) => 1 << i,
                None => 0,
            },
        }
    }
}

pub fn analyse(g: &Gram) -> An {
    let n = g.nts.len();
    let tch: Vec<Vec<char>> = g.ts.iter().map(|t| t.chars().collect()).collect();
    let mut alpha: Vec<char> = vec![];
    for t in &tch {
        if let Some(c) = t.first() {
            if !alpha.contains(c) {
                alpha.push(*c);
            }
        }
    }
    assert!(alpha.len() < 120);
    let mut an = An {
        tch,
        alpha,
        nullable: vec![false; n],
        productive: vec![false; n],
        first: vec![0; n],
        follow: vec![0; n],
        predict: vec![],
        leftrec: false,
        selfrec: vec![false; n],
        undefined: false,
        conflict: false,
    };
    for r in &g.rules {
        for a in r {
            for s in a {
                if let Sym::N(m) = s {
                    if !g.defined(*m) {
                        an.undefined = true;
                    }
                }
            }
        }
    }
    if !g.defined(g.start) {
        an.undefined = true;
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            for a in &g.rules[i] {
                if !an.nullable[i]
                    && a.iter().all(|s| match s {
                        Sym::T(t) => an.tch[*t].is_empty(),
                        Sym::N(m) => an.nullable[*m],
                    })
                {
                    an.nullable[i] = true;
                    ch = true;
                }
                if !an.productive[i]
                    && a.iter().all(|s| match s {
                        Sym::T(_) => true,
                        Sym::N(m) => an.productive[*m],
                    })
                {
                    an.productive[i] = true;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            for a in &g.rules[i] {
                let (s, _) = an.seq(a);
                if an.first[i] | s != an.first[i] {
                    an.first[i] |= s;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    // left recursion: i reaches itself through elements preceded only by nullable elements
    let mut reach = vec![vec![false; n]; n];
    for i in 0..n {
        for a in &g.rules[i] {
            for s in a {
                match s {
                    Sym::T(t) => {
                        if !an.tch[*t].is_empty() {
                            break;
                        }
                    }
                    Sym::N(m) => {
                        reach[i][*m] = true;
                        if !an.nullable[*m] {
                            break;
                        }
                    }
                }
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            if reach[i][k] {
                for j in 0..n {
                    if reach[k][j] {
                        reach[i][j] = true;
                    }
                }
            }
        }
    }
    an.selfrec = (0..n).map(|i| reach[i][i]).collect();
    an.leftrec = an.selfrec.iter().any(|x| *x);
    an.follow[g.start] |= 1 << EOI;
    loop {
        let mut ch = false;
        for i in 0..n {
            for a in &g.rules[i] {
                for (k, s) in a.iter().enumerate() {
                    if let Sym::N(m) = s {
                        let (f, nl) = an.seq(&a[k + 1..]);
                        let add = f | if nl { an.follow[i] } else { 0 };
                        if an.follow[*m] | add != an.follow[*m] {
                            an.follow[*m] |= add;
                            ch = true;
                        }
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..n {
        let mut v = vec![];
        let mut seen: Set = 0;
        for a in &g.rules[i] {
            let (f, nl) = an.seq(a);
            let p = f | if nl { an.follow[i] } else { 0 };
            if seen & p != 0 {
                an.conflict = true;
            }
            seen |= p;
            v.push(p);
        }
        an.predict.push(v);
    }
    an
}

// ---------------------------------------------------------------- chart oracle

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum DTree {
    Leaf(String),
    Node(usize, Vec<DTree>),
}
impl DTree {
    pub fn map_text(&self, f: &dyn Fn(&str) -> String) -> DTree {
        match self {
            DTree::Leaf(t) => DTree::Leaf(f(t)),
            DTree::Node(n, k) => DTree::Node(*n, k.iter().map(|k| k.map_text(f)).collect()),
        }
    }
}

/// Membership chart for one script of at most 62 characters: `der[nt][i]` is the set of end
/// positions j such that nt derives s[i..j].
pub struct Chart<'g> {
    g: &'g Gram,
    an: &'g An,
    pub s: Vec<char>,
    der: Vec<Vec<u64>>,
}
impl<'g> Chart<'g> {
    pub fn new(g: &'g Gram, an: &'g An, s: &[char]) -> Chart<'g> {
        assert!(s.len() <= 62);
        let n = g.nts.len();
        let mut c = Chart { g, an, s: s.to_vec(), der: vec![vec![0; s.len() + 1]; n] };
        loop {
            let mut ch = false;
            for a in 0..n {
                for i in 0..=s.len() {
                    let mut m = c.der[a][i];
                    for alt in &g.rules[a] {
                        m |= c.advance(alt, i);
                    }
                    if m != c.der[a][i] {
                        c.der[a][i] = m;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        c
    }
    fn step(&self, x: Sym, cur: u64) -> u64 {
        let mut next = 0u64;
        for j in 0..=self.s.len() {
            if cur >> j & 1 == 1 {
                match x {
                    Sym::T(t) => {
                        let w = &self.an.tch[t];
                        if self.s[j..].starts_with(w) {
                            next |= 1 << (j + w.len());
                        }
                    }
                    Sym::N(m) => next |= self.der[m][j],
                }
            }
        }
        next
    }
    fn advance(&self, seq: &[Sym], i: usize) -> u64 {
        let mut cur = 1u64 << i;
        for x in seq {
            if cur == 0 {
                return 0;
            }
            cur = self.step(*x, cur);
        }
        cur
    }
    pub fn accepts(&self) -> bool {
        self.der[self.g.start][0] >> self.s.len() & 1 == 1
    }
    /// Whether some text of the grammar begins with the whole script (rules that derive no text
    /// begin nothing).
    pub fn viable(&self) -> bool {
        let n = self.g.nts.len();
        let len = self.s.len();
        let mut pre = vec![vec![false; len + 1]; n];
        let prod = |x: &Sym| match x {
            Sym::T(_) => true,
            Sym::N(m) => self.an.productive[*m],
        };
        loop {
            let mut ch = false;
            for a in 0..n {
                for i in 0..=len {
                    if pre[a][i] {
                        continue;
                    }
                    let mut ok = false;
                    'alts: for alt in &self.g.rules[a] {
                        if !alt.iter().all(prod) {
                            continue;
                        }
                        let mut cur = 1u64 << i;
                        for x in alt {
                            for j in 0..=len {
                                if cur >> j & 1 == 1 {
                                    let hit = match x {
                                        Sym::T(t) => {
                                            let rest = &self.s[j..];
                                            rest.len() <= self.an.tch[*t].len()
                                                && self.an.tch[*t].starts_with(rest)
                                        }
                                        Sym::N(m) => pre[*m][j],
                                    };
                                    if hit {
                                        ok = true;
                                        break 'alts;
                                    }
                                }
                            }
                            cur = self.step(*x, cur);
                            if cur == 0 {
                                break;
                            }
                        }
                        if cur >> len & 1 == 1 {
                            ok = true;
                            break;
                        }
                    }
                    if ok {
                        pre[a][i] = true;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        pre[self.g.start][0]
    }
    /// All derivations of s[i..j] from a rule, at most two (to see ambiguity).
    pub fn tree(&self) -> DTree {
        let mut v = self.trees(self.g.start, 0, self.s.len());
        assert_eq!(v.len(), 1, "an LL(1) grammar is unambiguous");
        v.pop().unwrap()
    }
    fn trees(&self, a: usize, i: usize, j: usize) -> Vec<DTree> {
        let mut out = vec![];
        if self.der[a][i] >> j & 1 == 0 {
            return out;
        }
        for alt in &self.g.rules[a] {
            if self.advance(alt, i) >> j & 1 == 0 {
                continue;
            }
            for kids in self.seqs(alt, i, j) {
                out.push(DTree::Node(a, kids));
                if out.len() > 1 {
                    return out;
                }
            }
        }
        out
    }
    fn seqs(&self, seq: &[Sym], i: usize, j: usize) -> Vec<Vec<DTree>> {
        let Some((x, rest)) = seq.split_first() else {
            return if i == j { vec![vec![]] } else { vec![] };
        };
        let mut out = vec![];
        let ends = self.step(*x, 1 << i);
        for k in i..=j {
            if ends >> k & 1 == 0 || self.advance(rest, k) >> j & 1 == 0 {
                continue;
            }
            let heads = match x {
                Sym::T(t) => vec![DTree::Leaf(self.g.ts[*t].clone())],
                Sym::N(m) => self.trees(*m, i, k),
            };
            for h in heads {
                for r in self.seqs(rest, k, j) {
                    let mut v = vec![h.clone()];
                    v.extend(r);
                    out.push(v);
                    if out.len() > 1 {
                        return out;
                    }
                }
            }
        }
        out
    }
}

// ---------------------------------------------------------------- LL(1) reference machine

/// What a table-driven LL(1) recogniser does with a script: which rules complete, in order.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Machine {
    /// (rule, start, end) of every completed application
    pub completed: Vec<(usize, usize, usize)>,
    /// position of the error, None when accepted
    pub error: Option<usize>,
}

pub fn machine(g: &Gram, an: &An, s: &[char]) -> Machine {
    enum Item {
        S(Sym),
        Done(usize, usize),
    }
    let mut m = Machine { completed: vec![], error: None };
    let mut pos = 0;
    let mut stack = vec![Item::S(Sym::N(g.start))];
    while let Some(it) = stack.pop() {
        match it {
            Item::Done(r, from) => m.completed.push((r, from, pos)),
            Item::S(Sym::T(t)) => {
                for c in &an.tch[t] {
                    if s.get(pos) != Some(c) {
                        m.error = Some(pos);
                        return m;
                    }
                    pos += 1;
                }
            }
            Item::S(Sym::N(r)) => {
                let b = an.bit(s.get(pos).copied());
                match an.predict[r].iter().position(|p| p & b != 0) {
                    None => {
                        m.error = Some(pos);
                        return m;
                    }
                    Some(k) => {
                        stack.push(Item::Done(r, pos));
                        for x in g.rules[r][k].iter().rev() {
                            stack.push(Item::S(*x));
                        }
                    }
                }
            }
        }
    }
    if pos != s.len() {
        m.error = Some(pos);
    }
    m
}

/// The derivation the machine follows, for scripts of any length; None if it rejects.
pub fn machine_tree(g: &Gram, an: &An, s: &[char]) -> Option<DTree> {
    fn go(g: &Gram, an: &An, s: &[char], pos: &mut usize, r: usize) -> Option<DTree> {
        let b = an.bit(s.get(*pos).copied());
        let k = an.predict[r].iter().position(|p| p & b != 0)?;
        let mut kids = vec![];
        for x in &g.rules[r][k] {
            match x {
                Sym::T(t) => {
                    for c in &an.tch[*t] {
                        if s.get(*pos) != Some(c) {
                            return None;
                        }
                        *pos += 1;
                    }
                    kids.push(DTree::Leaf(g.ts[*t].clone()));
                }
                Sym::N(m) => kids.push(go(g, an, s, pos, *m)?),
            }
        }
        Some(DTree::Node(r, kids))
    }
    let mut pos = 0;
    let t = go(g, an, s, &mut pos, g.start)?;
    (pos == s.len()).then_some(t)
}

/// Every script to try on a grammar: all strings over `sigma` up to `maxlen`, where a string that
/// no text of the grammar begins with is only extended by one more character. Returns (script,
/// longest viable prefix, sentence?). The order is shortest first.
pub struct Probe {
    pub s: Vec<char>,
    pub viable: usize,
    pub accept: bool,
    pub tree: Option<DTree>,
}
pub fn probes(g: &Gram, an: &An, sigma: &[char], maxlen: usize, cap: usize, trees: bool) -> Vec<Probe> {
    let mut out: Vec<Probe> = vec![];
    let first = mk(g, an, vec![], None, trees);
    out.push(first);
    let mut k = 0;
    while k < out.len() && out.len() < cap {
        let (l, v) = (out[k].s.len(), out[k].viable);
        if l < maxlen && v + 1 >= l {
            for c in sigma {
                let mut s = out[k].s.clone();
                s.push(*c);
                let inherit = if v < l { Some(v) } else { None };
                let p = mk(g, an, s, inherit, trees);
                out.push(p);
            }
        }
        k += 1;
    }
    out
}
fn mk(g: &Gram, an: &An, s: Vec<char>, inherit: Option<usize>, trees: bool) -> Probe {
    if let Some(v) = inherit {
        return Probe { s, viable: v, accept: false, tree: None };
    }
    let c = Chart::new(g, an, &s);
    let accept = c.accepts();
    let viable = if c.viable() { s.len() } else { s.len().saturating_sub(1) };
    let tree = if accept && trees { Some(c.tree()) } else { None };
    Probe { s, viable, accept, tree }
}
