//! Reference reader of rule text, written from the documented syntax:
//!
//!   file      := ws (directive | rule)*
//!   directive := '$' "IGNORE" ws ':' ws name ws ';' ws
//!   rule      := name ws "->" ws [override] alts [section] ws ';' ws
//!   override  := "$[" "IGNORE" ws ':' ('#' | name) ']'
//!   alts      := alt ('|' alt)*         alt := ws ('#' | (element ws)+) ws
//!   element   := name | '"' (char | '\' char)* '"'
//!   section   := '{' ws text '}'        up to the first '}' not directly preceded by '\'
use crate::gram::{Gram, Sym};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum El {
    T(String),
    N(String),
}
#[derive(Clone, Debug)]
pub struct RefRule {
    pub name: String,
    pub alts: Vec<Vec<El>>,
    pub section: Option<String>,
    /// the ignorable rule in force
    pub ignore: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct RefFile {
    /// statements in order, not merged
    pub rules: Vec<RefRule>,
}

pub struct R<'a> {
    pub s: &'a [char],
    pub i: usize,
}
pub type Res<T> = Result<T, usize>;
impl R<'_> {
    pub fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    pub fn ws(&mut self) {
        while self.peek().is_some_and(char::is_whitespace) {
            self.i += 1;
        }
    }
    pub fn sym(&mut self, c: char) -> Res<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.i)
        }
    }
    pub fn name(&mut self) -> Res<String> {
        if !self.peek().is_some_and(char::is_alphabetic) {
            return Err(self.i);
        }
        let a = self.i;
        while self.peek().is_some_and(|c| c.is_alphanumeric() || c == '_') {
            self.i += 1;
        }
        Ok(self.s[a..self.i].iter().collect())
    }
    pub fn terminal(&mut self) -> Res<String> {
        self.sym('"')?;
        let mut o = String::new();
        loop {
            let c = self.peek().ok_or(self.i)?;
            self.i += 1;
            match c {
                '"' => return Ok(o),
                '\\' => {
                    o.push(c);
                    o.push(self.peek().ok_or(self.i)?);
                    self.i += 1;
                }
                c => o.push(c),
            }
        }
    }
    pub fn alt(&mut self) -> Res<Vec<El>> {
        self.ws();
        if self.peek() == Some('#') {
            self.i += 1;
            return Ok(vec![]);
        }
        let mut v = vec![];
        loop {
            self.ws();
            match self.peek() {
                Some('"') => v.push(El::T(self.terminal()?)),
                Some(c) if c.is_alphabetic() => v.push(El::N(self.name()?)),
                _ if v.is_empty() => return Err(self.i),
                _ => return Ok(v),
            }
        }
    }
    pub fn section(&mut self) -> Res<String> {
        self.sym('{')?;
        self.ws();
        let a = self.i;
        loop {
            match self.peek() {
                None => return Err(self.i),
                Some('}') if self.i == a || self.s[self.i - 1] != '\\' => {
                    let t = self.s[a..self.i].iter().collect();
                    self.i += 1;
                    return Ok(t);
                }
                _ => self.i += 1,
            }
        }
    }
}

impl R<'_> {
    /// The alternatives of a rule.
    pub fn alts(&mut self) -> Res<Vec<Vec<El>>> {
        let mut alts = vec![self.alt()?];
        loop {
            self.ws();
            if self.peek() == Some('|') {
                self.i += 1;
                alts.push(self.alt()?);
            } else {
                return Ok(alts);
            }
        }
    }
    /// One rule, up to its semicolon; `ignore`: what the directives so far say.
    pub fn rule(&mut self, ignore: &Option<String>) -> Res<RefRule> {
        let name = self.name()?;
        self.ws();
        self.sym('-')?;
        self.sym('>')?;
        self.ws();
        let mut ig = ignore.clone();
        if self.peek() == Some('$') {
            self.i += 1;
            self.sym('[')?;
            if self.name()? != "IGNORE" {
                return Err(self.i);
            }
            self.ws();
            self.sym(':')?;
            if self.peek() == Some('#') {
                self.i += 1;
                ig = None;
            } else {
                ig = Some(self.name()?);
            }
            self.sym(']')?;
        }
        let alts = self.alts()?;
        let section = if self.peek() == Some('{') { Some(self.section()?) } else { None };
        self.ws();
        self.sym(';')?;
        Ok(RefRule { name, alts, section, ignore: ig })
    }
}

pub fn read(text: &[char]) -> Res<RefFile> {
    let mut r = R { s: text, i: 0 };
    let mut f = RefFile::default();
    let mut ignore: Option<String> = None;
    loop {
        r.ws();
        if r.peek().is_none() {
            return Ok(f);
        }
        if r.peek() == Some('$') {
            r.i += 1;
            let n = r.name()?;
            if n != "IGNORE" {
                return Err(r.i);
            }
            r.ws();
            r.sym(':')?;
            r.ws();
            ignore = Some(r.name()?);
            r.ws();
            r.sym(';')?;
            continue;
        }
        f.rules.push(r.rule(&ignore)?);
    }
}

impl RefFile {
    /// Statements about the same rule put together (the first one's section and ignorable rule
    /// stand); rule order is that of the first statements.
    pub fn merged(&self) -> Vec<RefRule> {
        let mut v: Vec<RefRule> = vec![];
        let mut at: HashMap<&str, usize> = HashMap::new();
        for r in &self.rules {
            match at.get(r.name.as_str()) {
                Some(k) => v[*k].alts.extend(r.alts.iter().cloned()),
                None => {
                    at.insert(&r.name, v.len());
                    v.push(r.clone());
                }
            }
        }
        v
    }
    /// The rules after ignorable rules have been written out between neighbouring elements.
    pub fn woven(&self) -> Vec<RefRule> {
        let m = self.merged();
        let mut made: HashMap<&str, (HashSet<&str>, bool)> = HashMap::new();
        let at: HashMap<&str, &RefRule> = m.iter().map(|r| (r.name.as_str(), r)).collect();
        m.iter()
            .map(|r| {
                let mut r2 = r.clone();
                if let Some(ig) = &r.ignore {
                    if !made.entry(ig).or_insert_with(|| made_of(&at, ig)).0.contains(r.name.as_str()) {
                        r2.alts = r
                            .alts
                            .iter()
                            .map(|a| {
                                let mut o = vec![];
                                for (k, e) in a.iter().enumerate() {
                                    if k > 0 {
                                        o.push(El::N(ig.clone()));
                                    }
                                    o.push(e.clone());
                                }
                                o
                            })
                            .collect();
                    }
                }
                r2
            })
            .collect()
    }
}
/// The rules an ignorable rule is made of, including itself; whether one of them is not there.
pub fn made_of<'a>(at: &HashMap<&'a str, &'a RefRule>, ig: &'a str) -> (HashSet<&'a str>, bool) {
    let mut seen = HashSet::from([ig]);
    let mut todo = vec![ig];
    let mut missing = false;
    while let Some(n) = todo.pop() {
        let Some(r) = at.get(n) else {
            missing = true;
            continue;
        };
        for e in r.alts.iter().flatten() {
            if let El::N(n) = e {
                if seen.insert(n) {
                    todo.push(n);
                }
            }
        }
    }
    (seen, missing)
}

/// Oracle grammar of a list of rules; the start rule is the one called "start".
pub fn to_gram(rules: &[RefRule]) -> Gram {
    let mut nts: Vec<String> = vec!["start".into()];
    let mut ts: Vec<String> = vec![];
    fn ix(v: &mut Vec<String>, s: &str) -> usize {
        match v.iter().position(|x| x == s) {
            Some(p) => p,
            None => {
                v.push(s.to_string());
                v.len() - 1
            }
        }
    }
    let mut out = vec![];
    for r in rules {
        let l = ix(&mut nts, &r.name);
        let alts: Vec<Vec<Sym>> = r
            .alts
            .iter()
            .map(|a| {
                a.iter()
                    .map(|e| match e {
                        El::T(t) => Sym::T(ix(&mut ts, t)),
                        El::N(n) => Sym::N(ix(&mut nts, n)),
                    })
                    .collect()
            })
            .collect();
        out.push((l, alts, r.section.clone()));
    }
    let n = nts.len();
    let mut g = Gram {
        ts,
        rules: vec![vec![]; n],
        start: 0,
        order: out.iter().map(|x| x.0).collect(),
        acts: vec![None; n],
        nts,
    };
    g.order.dedup();
    for (l, a, s) in out {
        g.rules[l].extend(a);
        if g.acts[l].is_none() {
            g.acts[l] = s;
        }
    }
    g
}
pub fn gram_of(text: &str) -> Gram {
    let c: Vec<char> = text.chars().collect();
    to_gram(&read(&c).expect("well-formed").woven())
}
