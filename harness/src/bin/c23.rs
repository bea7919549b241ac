//! C23: grammar elements are interned once and keep their identity.
use henriks_parsing_project::parser_data::{Element, ElementType, ElementVerbose, ParserData, Production};
use hx::run::*;
use hx::vmx::{TraceInst, TraceVm};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Op {
    /// how the element is asked for: 0 by the kind's own function, 1 by key
    Get(&'static str, bool, u8),
    Add(usize, &'static [usize]),
    Set(usize, &'static [&'static [usize]]),
    Inst(usize, &'static [usize]),
}
use Op::*;

#[derive(Default)]
struct Model {
    els: Vec<(&'static str, bool)>,
    /// productions, instructions; maybe: the rule may also not exist
    rules: BTreeMap<usize, (Vec<Vec<usize>>, Vec<usize>, bool)>,
}
impl Model {
    /// false: the operation uses an index that was not handed out, or not a rule's
    fn legal(&self, op: &Op) -> bool {
        let n = self.els.len();
        let lhs = |i: usize| i < n && !self.els[i].1;
        match op {
            Get(..) => true,
            Add(i, t) => lhs(*i) && t.iter().all(|x| *x < n),
            Set(i, ts) => lhs(*i) && ts.iter().flat_map(|t| t.iter()).all(|x| *x < n),
            Inst(i, _) => lhs(*i),
        }
    }
    fn apply(&mut self, op: &Op) -> Option<usize> {
        match op {
            Get(name, t, _) => Some(match self.els.iter().position(|e| *e == (*name, *t)) {
                Some(p) => p,
                None => {
                    self.els.push((name, *t));
                    self.els.len() - 1
                }
            }),
            Add(i, t) => {
                let r = self.rules.entry(*i).or_default();
                r.0.push(t.to_vec());
                r.2 = false;
                None
            }
            Set(i, ts) => {
                let new = !self.rules.contains_key(i);
                let r = self.rules.entry(*i).or_default();
                r.0 = ts.iter().map(|t| t.to_vec()).collect();
                r.2 = (new || r.2) && ts.is_empty();
                None
            }
            Inst(i, v) => {
                let r = self.rules.entry(*i).or_default();
                r.1 = v.to_vec();
                r.2 = false;
                None
            }
        }
    }
}
fn apply(d: &mut ParserData<TraceVm>, op: &Op) -> Option<usize> {
    match op {
        Get(n, t, 0) => Some(if *t { d.get_or_add_terminal(n) } else { d.get_or_add_non_terminal(n) }),
        Get(n, t, _) => Some(d.get_or_add_element_key(&ElementVerbose::new(n.to_string(), kind(*t)))),
        Add(i, t) => {
            d.add_production(*i, t.to_vec());
            None
        }
        Set(i, ts) => {
            d.set_productions(*i, ts.iter().map(|t| t.to_vec()).collect());
            None
        }
        Inst(i, v) => {
            d.add_instructions(*i, v.iter().map(|k| TraceInst { rule: "i".into(), k: *k }).collect());
            None
        }
    }
}
fn kind(t: bool) -> ElementType {
    if t { ElementType::Terminal } else { ElementType::NonTerminal }
}
const NAMES: &[&str] = &["a", "b", "", "start"];

type R = Option<(Vec<Vec<usize>>, Vec<usize>)>;
fn rule(d: Option<&henriks_parsing_project::parser_data::NonTerminalRules<TraceVm>>) -> R {
    d.map(|r| {
        (
            r.possible_productions
                .iter()
                .map(|p| match &**p {
                    Production::Empty => vec![],
                    Production::NotEmpty(v) => v.clone(),
                })
                .collect(),
            r.instruction.iter().map(|i| i.k).collect(),
        )
    })
}
fn compare(m: &Model, d: &ParserData<TraceVm>) -> Result<(), String> {
    let n = m.els.len();
    for i in 0..n + 2 {
        let want = m.els.get(i).map(|e| ElementVerbose::new(e.0.to_string(), kind(e.1)));
        if d.get_element_verbose(i) != want {
            return Err(format!("get_element_verbose({i}) = {:?}, expected {want:?}", d.get_element_verbose(i)));
        }
        let we = m.els.get(i).map(|e| Element::new(i, kind(e.1)));
        if d.get_element(i) != we {
            return Err(format!("get_element({i}) = {:?}, expected {we:?}", d.get_element(i)));
        }
        let wd = m.els.get(i).map(|e| e.0.to_string());
        let gd = d.get_element_data(i).map(|x| x.name.clone());
        if gd != wd {
            return Err(format!("get_element_data({i}) = {gd:?}, expected {wd:?}"));
        }
        let wr: R = m.rules.get(&i).map(|r| (r.0.clone(), r.1.clone()));
        let maybe = m.rules.get(&i).map(|r| r.2).unwrap_or(false);
        let mut got = vec![("get_rule_by_key", rule(d.get_rule_by_key(i))), ("get_rule_by_element", rule(d.get_rule_by_element(Element::new_nt(i))))];
        if let Some((name, false)) = m.els.get(i) {
            got.push(("get_rule_by_element_verbose", rule(d.get_rule_by_element_verbose(name))));
        }
        for (how, g) in got {
            if g != wr && !(maybe && g.is_none()) {
                return Err(format!("{how} of rule {i} gives (productions, instructions) {g:?}, expected {wr:?}"));
            }
        }
    }
    let all: Vec<ElementVerbose> = m.els.iter().map(|e| ElementVerbose::new(e.0.to_string(), kind(e.1))).collect();
    if d.get_elements_verbose() != all {
        return Err(format!("get_elements_verbose() = {:?}, expected {all:?}", d.get_elements_verbose()));
    }
    for name in NAMES {
        for t in [false, true] {
            let want = m.els.iter().position(|e| e == &(*name, t));
            let by = d.get_element_index(&ElementVerbose::new(name.to_string(), kind(t)));
            let own = if t { d.get_element_t_index(name) } else { d.get_element_nt_index(name) };
            if by != want || own != want {
                return Err(format!("the index of {name:?} ({}) is {by:?} by key and {own:?} by kind, expected {want:?}", if t { "terminal" } else { "rule" }));
            }
        }
        if !m.els.contains(&(*name, false)) && d.get_rule_by_element_verbose(name).is_some() {
            return Err(format!("a rule {name:?} is found that was never made"));
        }
    }
    Ok(())
}

fn run(ops: &[Op], st: &mut Stat) -> Result<bool, String> {
    let mut m = Model::default();
    for op in ops {
        if !m.legal(op) {
            return Ok(false);
        }
        m.apply(op);
    }
    let mut m = Model::default();
    catch(|| {
        let mut d = ParserData::<TraceVm>::new();
        compare(&m, &d)?;
        for (k, op) in ops.iter().enumerate() {
            let (w, g) = (m.apply(op), apply(&mut d, op));
            if w != g {
                return Err(format!("after {:?}, {op:?} gives index {g:?}, expected {w:?}", &ops[..k]));
            }
            compare(&m, &d).map_err(|e| format!("after {:?}: {e}", &ops[..=k]))?;
            st.transitions += 1;
        }
        Ok(())
    })
    .map_err(|p| format!("{ops:?}: {p}"))??;
    st.states += 1;
    st.traces += 1;
    Ok(true)
}

fn sequences(name: &str, bound: &str, pre: Vec<Op>, ops: Vec<Op>, len: u32) -> Family {
    let k = ops.len() as u64;
    family(name, &format!("all sequences of {len} operations out of {k} ({bound}), every lookup after every operation"), k.pow(len), move |mut i, st| {
        let mut s = pre.clone();
        for _ in 0..len {
            s.push(ops[(i % k) as usize].clone());
            i /= k;
        }
        if !run(&s, st)? {
            st.skipped += 1;
        } else {
            st.sample(|| format!("{s:?}"));
        }
        Ok(())
    })
}

fn strings(alpha: &[char], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for c in alpha {
                all.push(format!("{}{c}", all[i]));
            }
        }
        from = to;
    }
    all
}

/// One name is added, then another: what is found, by kind and by key, under which index.
fn two(a: &str, ta: bool, b: &str, tb: bool) -> Result<(), String> {
    let same = a == b && ta == tb;
    let ev = |n: &str, t: bool| ElementVerbose::new(n.to_string(), kind(t));
    let own = |d: &ParserData<TraceVm>, n: &str, t: bool| if t { d.get_element_t_index(n) } else { d.get_element_nt_index(n) };
    let add = |d: &mut ParserData<TraceVm>, n: &str, t: bool| if t { d.get_or_add_terminal(n) } else { d.get_or_add_non_terminal(n) };
    catch(|| {
        let mut d = ParserData::<TraceVm>::new();
        let say = |m: String| Err(format!("{a:?} (terminal: {ta}) is added, then {b:?} (terminal: {tb}): {m}"));
        if add(&mut d, a, ta) != 0 {
            return say("the first element does not get index 0".into());
        }
        if !ta {
            d.add_production(0, vec![0]);
        }
        for (n, t, want) in [(a, ta, Some(0)), (b, tb, if same { Some(0) } else { None })] {
            let (o, e) = (own(&d, n, t), d.get_element_index(&ev(n, t)));
            if o != want || e != want {
                return say(format!("with only the first, {n:?} (terminal: {t}) is found at {o:?} by kind and {e:?} by key"));
            }
        }
        if d.get_rule_by_element_verbose(b).is_some() != (a == b && !ta) {
            return say(format!("a rule {b:?} found: {}", d.get_rule_by_element_verbose(b).is_some()));
        }
        let wi = if same { 0 } else { 1 };
        let g = add(&mut d, b, tb);
        if g != wi {
            return say(format!("the second gets index {g}"));
        }
        for (n, t, want) in [(a, ta, 0), (b, tb, wi)] {
            let (o, e) = (own(&d, n, t), d.get_element_index(&ev(n, t)));
            if o != Some(want) || e != Some(want) {
                return say(format!("{n:?} (terminal: {t}) is then found at {o:?} by kind and {e:?} by key"));
            }
            if d.get_element_verbose(want) != Some(ev(n, t)) {
                return say(format!("element {want} is then {:?}", d.get_element_verbose(want)));
            }
        }
        let mut all = vec![ev(a, ta)];
        if !same {
            all.push(ev(b, tb));
        }
        if d.get_elements_verbose() != all {
            return say(format!("the elements are then {:?}", d.get_elements_verbose()));
        }
        Ok(())
    })
    .map_err(|p| p.to_string())?
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let mut gets = vec![];
        for n in &NAMES[..3] {
            for t in [false, true] {
                for how in 0..2 {
                    gets.push(Get(n, t, how));
                }
            }
        }
        families.push(sequences("elements", "asking for 3 names x 2 kinds in 2 ways", vec![], gets, if q { 5 } else { 6 }));
        let pre = vec![Get("a", false, 0), Get("a", true, 0), Get("b", false, 0)];
        let rules = vec![
            Add(0, &[]),
            Add(0, &[1]),
            Add(2, &[1, 0]),
            Set(0, &[]),
            Set(0, &[&[1], &[]]),
            Set(2, &[&[0]]),
            Set(2, &[&[2, 1], &[1, 1], &[]]),
            Inst(0, &[]),
            Inst(0, &[4, 5]),
            Inst(2, &[6]),
            Get("b", true, 0),
        ];
        families.push(sequences("rules", "adding and replacing productions, attaching instructions to two rules, adding an element; three elements known", pre, rules, if q { 6 } else { 7 }));
        let mixed = vec![
            Get("start", false, 0),
            Get("start", true, 1),
            Get("b", false, 1),
            Add(0, &[1]),
            Add(0, &[0, 0]),
            Add(1, &[]),
            Set(1, &[&[0], &[2]]),
            Inst(0, &[1]),
            Inst(1, &[2, 3]),
        ];
        families.push(sequences("mixed", "elements and rules made in any order", vec![], mixed, if q { 6 } else { 7 }));
        // many elements
        let max = if q { 300 } else { 1500 };
        families.push(family("many", &format!("1..{max} elements of both kinds with names sharing prefixes, then every one asked for again"), max, |i, st| {
            let n = i as usize + 1;
            let name = |k: usize| if k % 3 == 0 { "x".repeat(k / 3) } else { format!("{}", k) };
            catch(|| {
                let mut d = ParserData::<TraceVm>::new();
                let mut want = vec![];
                for round in 0..2 {
                    for k in 0..n {
                        for t in [false, true] {
                            let g = if t { d.get_or_add_terminal(&name(k)) } else { d.get_or_add_non_terminal(&name(k)) };
                            if round == 0 {
                                if g != want.len() {
                                    return Err(format!("the {}th element gets index {g}", want.len()));
                                }
                                want.push((name(k), t));
                            } else if want.get(g) != Some(&(name(k), t)) {
                                return Err(format!("{:?} (terminal: {t}) is found at {g}, where {:?} was added", name(k), want.get(g)));
                            }
                        }
                    }
                }
                let all: Vec<ElementVerbose> = want.iter().map(|e| ElementVerbose::new(e.0.clone(), kind(e.1))).collect();
                if d.get_elements_verbose() != all {
                    return Err(format!("the list of {} elements is not the one added", all.len()));
                }
                Ok(())
            })
            .map_err(|p| p.to_string())??;
            st.states += 1;
            st.traces += 1;
            st.transitions += 4 * n as u64;
            Ok(())
        }));
        // names nobody tidies up
        let odd: Vec<String> = strings(&['a', 'A', '\\', '"', ' ', '\n', 'é', '\u{301}', '\0'], 3);
        let (k, names) = (odd.len() as u64, odd.clone());
        families.push(family(
            "odd-names",
            &format!("all ordered pairs of names of up to {} characters out of 9 (quote, backslash, blanks, cases, combining, NUL), in every pair of kinds: the first added, the second looked up, then added, both looked up and listed", 3),
            k * k * 4,
            move |mut i, st| {
                let (ta, tb) = (i & 1 == 1, i & 2 == 2);
                i /= 4;
                let (a, b) = (&names[(i / k) as usize], &names[(i % k) as usize]);
                two(a, ta, b, tb)?;
                st.states += 1;
                st.traces += 1;
                st.transitions += 8;
                st.sample(|| format!("{a:?} {ta} {b:?} {tb}"));
                Ok(())
            },
        ));
        families.push(family(
            "huge",
            "n elements of both kinds asked for twice, n rules with a production each, one rule with n productions, one production of n elements, n instructions; n around 128, 256, 4096, 32768, 65536 and 70000",
            hx::huge::SIZES.len() as u64,
            |i, st| {
                let n = hx::huge::SIZES[i as usize];
                catch(|| {
                    let mut d = ParserData::<TraceVm>::new();
                    let ev = |k: usize| ElementVerbose::new(format!("e{}", k / 2), kind(k % 2 == 1));
                    for round in 0..2 {
                        for k in 0..n {
                            let (x, e) = (format!("e{}", k / 2), ev(k));
                            let g = match (round, k % 2) {
                                (0, 1) => d.get_or_add_terminal(&x),
                                (0, _) => d.get_or_add_non_terminal(&x),
                                _ => d.get_or_add_element_key(&e),
                            };
                            let own = if k % 2 == 1 { d.get_element_t_index(&x) } else { d.get_element_nt_index(&x) };
                            if g != k || own != Some(k) || d.get_element_index(&e) != Some(k) || d.get_element_verbose(k) != Some(e) {
                                return Err(format!("element {k} of {n}: index {g}, found at {own:?}, there is {:?}", d.get_element_verbose(k)));
                            }
                        }
                    }
                    if d.get_element_verbose(n).is_some() || d.get_element(n).is_some() {
                        return Err(format!("there are more than {n} elements"));
                    }
                    for k in (2..n).step_by(2) {
                        d.add_production(k, vec![k - 1, k, n - 1]);
                    }
                    for k in 0..n {
                        d.add_production(0, vec![n - 1 - k]);
                    }
                    d.add_instructions(0, (0..n).map(|k| TraceInst { rule: "i".into(), k }).collect());
                    let all: Vec<usize> = (0..n).map(|k| k * 7 % n).collect();
                    d.add_production(2, all.clone());
                    st.states += 3;
                    st.traces += 3;
                    st.transitions += 6 * n as u64;
                    let want: R = Some(((0..n).map(|k| vec![n - 1 - k]).collect(), (0..n).collect()));
                    if rule(d.get_rule_by_key(0)) != want || rule(d.get_rule_by_element_verbose("e0")) != want {
                        return Err(format!("the rule of {n} productions and instructions is not the one given"));
                    }
                    for k in (2..n).step_by(2) {
                        let mut want = vec![vec![k - 1, k, n - 1]];
                        if k == 2 {
                            want.push(all.clone());
                        }
                        if rule(d.get_rule_by_key(k)) != Some((want, vec![])) {
                            return Err(format!("the production of rule {k} is not the one given"));
                        }
                    }
                    let want: Vec<Vec<usize>> = vec![all.clone(), vec![], all.clone()];
                    d.set_productions(0, want.clone());
                    if rule(d.get_rule_by_key(0)).map(|r| r.0) != Some(want) {
                        return Err(format!("the productions of {n} elements are not the ones given"));
                    }
                    Ok(())
                })
                .unwrap_or_else(|p| Err(p.to_string()))
                .map_err(|e| format!("{e}\n(n={n})"))
            },
        ));
        families.push(family(
            "every-character",
            "every Unicode character as a name, then one of its relatives (case, neighbours, characters that agree in some bits) or itself, in every pair of kinds, and both twice in a longer name",
            hx::uni::CHUNKS,
            |i, st| {
                for c in hx::uni::chars_of(i) {
                    let a = c.to_string();
                    for r in hx::uni::relatives(c).into_iter().chain([c]) {
                        for k in 0..4 {
                            two(&a, k & 1 == 1, &r.to_string(), k & 2 == 2)?;
                            st.states += 1;
                            st.traces += 1;
                            st.transitions += 8;
                        }
                        two(&format!("a{c}{r}"), r > c, &format!("a{r}{c}"), r > c)?;
                    }
                }
                Ok(())
            },
        ));
        Check {
            id: "C23",
            technique: "exhaustive exploration of operation histories on the real structure against a reference model",
            assumptions: vec![
                "productions are only given to rules, with indices that were handed out".into(),
                "attaching instructions again replaces the earlier ones; replacing the productions of an unknown rule by none may or may not make the rule".into(),
            ],
            families,
        }
    })
}
