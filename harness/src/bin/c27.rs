//! C27: what actions do to the finished part of the tree stays, and nothing else changes.
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use hx::gram::*;
use hx::langs;
use hx::run::*;
use hx::vmx::{describe, read_tree, root, LTree};
use std::collections::HashMap;

/// What one instruction does. "Children" are those of the node the action is run for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    /// rewrite the node's text
    Set,
    /// a new leaf behind the children
    Add,
    /// a new node with a child of its own
    AddDeep,
    /// remove the first, the second, the last child
    First,
    Second,
    Last,
    /// put the text of everything below into the node and remove the children
    Fold,
    /// remove the node itself
    Own,
    /// remember the first child; remove the one remembered; add a leaf to it
    Keep,
    DropKept,
    AddKept,
    /// remember the node itself
    KeepOwn,
    /// rewrite the text of the node remembered, of the first child
    SetKept,
    SetFirst,
}
use Op::*;
const OPS: &[(&str, Op)] = &[
    ("set", Set),
    ("add", Add),
    ("deep", AddDeep),
    ("first", First),
    ("second", Second),
    ("last", Last),
    ("fold", Fold),
    ("own", Own),
    ("keep", Keep),
    ("drop", DropKept),
    ("addkept", AddKept),
    ("keepown", KeepOwn),
    ("setkept", SetKept),
    ("setfirst", SetFirst),
];

/// The reference: nodes by number, children as lists.
#[derive(Clone, Default)]
struct Model {
    n: HashMap<usize, (String, Vec<usize>, Option<usize>)>,
    next: usize,
}
impl Model {
    fn add(&mut self, data: String, parent: Option<usize>) -> usize {
        let id = self.next;
        self.next += 1;
        self.n.insert(id, (data, vec![], parent));
        if let Some(p) = parent {
            self.n.get_mut(&p).unwrap().1.push(id);
        }
        id
    }
    fn remove(&mut self, id: usize) {
        let Some((_, kids, parent)) = self.n.get(&id).cloned() else { return };
        for k in kids {
            self.remove(k);
        }
        self.n.remove(&id);
        if let Some(p) = parent.and_then(|p| self.n.get_mut(&p)) {
            p.1.retain(|x| *x != id);
        }
    }
    fn text(&self, id: usize) -> String {
        let (d, k, _) = &self.n[&id];
        d.clone() + &k.iter().map(|k| self.text(*k)).collect::<String>()
    }
    fn tree(&self, id: usize) -> LTree {
        let (d, k, _) = &self.n[&id];
        LTree { data: d.clone(), kids: k.iter().map(|k| self.tree(*k)).collect() }
    }
    fn run(&mut self, op: Op, id: usize, kept: &mut Option<usize>, tag: &str) {
        let kids = match self.n.get(&id) {
            Some(n) => n.1.clone(),
            None => vec![],
        };
        let here = self.n.contains_key(&id);
        match op {
            Set if here => self.n.get_mut(&id).unwrap().0 = tag.to_string(),
            Add if here => {
                self.add(tag.to_string(), Some(id));
            }
            AddDeep if here => {
                let k = self.add(tag.to_string(), Some(id));
                self.add("in".into(), Some(k));
            }
            First => kids.first().into_iter().for_each(|k| self.remove(*k)),
            Second => kids.get(1).into_iter().for_each(|k| self.remove(*k)),
            Last => kids.last().into_iter().for_each(|k| self.remove(*k)),
            Fold if here => {
                let t = self.text(id);
                self.n.get_mut(&id).unwrap().0 = t;
                kids.iter().for_each(|k| self.remove(*k));
            }
            Own => self.remove(id),
            Keep => *kept = kids.first().copied(),
            KeepOwn => *kept = Some(id),
            DropKept => kept.iter().for_each(|k| self.remove(*k)),
            AddKept => {
                if let Some(k) = kept.filter(|k| self.n.contains_key(k)) {
                    self.add(tag.to_string(), Some(k));
                }
            }
            SetKept => kept.iter().for_each(|k| {
                self.n.get_mut(k).into_iter().for_each(|n| n.0.push_str(tag));
            }),
            SetFirst => kids.first().into_iter().for_each(|k| self.n.get_mut(k).unwrap().0 = tag.to_string()),
            _ => {}
        }
    }
}
/// What an action saw before it did anything: the tree from its root on, where its node is in it
/// (not at all if an earlier instruction removed it), and which of the nodes of earlier actions
/// are still there.
#[derive(Clone, PartialEq, Debug)]
struct Seen {
    rule: String,
    k: usize,
    whole: Option<LTree>,
    path: Option<Vec<usize>>,
    alive: Vec<bool>,
}
fn model_path(m: &Model, id: usize) -> Option<Vec<usize>> {
    let n = m.n.get(&id)?;
    Some(match n.2 {
        None => vec![],
        Some(p) => {
            let mut v = model_path(m, p)?;
            v.push(m.n[&p].1.iter().position(|x| *x == id)?);
            v
        }
    })
}
struct Run<'a> {
    g: &'a Gram,
    an: &'a An,
    ops: &'a [Vec<Op>],
    s: &'a [char],
    pos: usize,
    m: Model,
    kept: Option<usize>,
    mine: Vec<usize>,
    out: Vec<Seen>,
}
impl Run<'_> {
    /// The table-driven machine with the exact predict sets, growing the model.
    fn rule(&mut self, r: usize, parent: Option<usize>) -> bool {
        let b = self.an.bit(self.s.get(self.pos).copied());
        let Some(k) = self.an.predict[r].iter().position(|p| p & b != 0) else { return false };
        let id = self.m.add(String::new(), parent);
        for x in self.g.rules[r][k].clone() {
            match x {
                Sym::T(t) => {
                    for c in &self.an.tch[t] {
                        if self.s.get(self.pos) != Some(c) {
                            return false;
                        }
                        self.pos += 1;
                    }
                    self.m.add(self.g.ts[t].clone(), Some(id));
                }
                Sym::N(n) => {
                    if !self.rule(n, Some(id)) {
                        return false;
                    }
                }
            }
        }
        for (k, op) in self.ops[r].iter().enumerate() {
            if k == 0 {
                self.mine.push(id);
            }
            let whole = self.m.n.contains_key(&0).then(|| self.m.tree(0));
            let seen = Seen { rule: self.g.nts[r].clone(), k, whole, path: model_path(&self.m, id), alive: self.mine.iter().map(|i| self.m.n.contains_key(i)).collect() };
            self.out.push(seen);
            let tag = format!("{}{}", self.g.nts[r], k);
            self.m.run(*op, id, &mut self.kept, &tag);
        }
        true
    }
}

#[derive(Default)]
struct EditVm;
struct Inst(String, usize, Op);
#[derive(Default)]
struct State {
    kept: Option<NodeId>,
    mine: Vec<NodeId>,
    seen: Vec<Seen>,
    odd: Option<String>,
}
impl VM for EditVm {
    type Tstate = State;
    type Tinstrution = Inst;
    fn parse_instructions<'a, T>(&'a self, name: &str, p: &mut ParseProcess<T>) -> Result<Vec<Inst>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let t: String = p.by_ref().collect();
        Ok(t.split_whitespace()
            .enumerate()
            .map(|(k, w)| Inst(name.to_string(), k, OPS.iter().find(|o| o.0 == w).expect("an operation").1))
            .collect())
    }
    fn execute_instruction(&self, t: &mut Tree<String>, id: NodeId, i: &Inst, st: &mut State) {
        if i.1 == 0 {
            st.mine.push(id);
        }
        let whole = read_tree(t, root()).ok();
        let path = if t.node_exists(id) { hx::vmx::find_path(t, root(), id) } else { None };
        let alive = st.mine.iter().map(|n| t.node_exists(*n)).collect();
        st.seen.push(Seen { rule: i.0.clone(), k: i.1, whole, path, alive });
        let tag = format!("{}{}", i.0, i.1);
        let kids = t.get_children(id);
        let mut must = |what: &str, r: Result<(), String>| {
            if let Err(e) = r {
                st.odd.get_or_insert(format!("{what} failed: {e}"));
            }
        };
        let here = t.node_exists(id);
        let rm = |t: &mut Tree<String>, n: NodeId| t.remove_branch(n).map_err(|e| e.to_string());
        match i.2 {
            Set if here => must("get_node_mut", t.get_node_mut(id).map(|n| n.data = tag).map_err(|e| e.to_string())),
            Add if here => must("add_node", t.add_node(tag, Some(id)).map(|_| ()).map_err(|e| e.to_string())),
            AddDeep if here => match t.add_node(tag, Some(id)) {
                Ok(k) => must("add_node", t.add_node("in".into(), Some(k)).map(|_| ()).map_err(|e| e.to_string())),
                Err(e) => must("add_node", Err(e.to_string())),
            },
            First => kids.first().into_iter().for_each(|k| must("remove_branch", rm(t, *k))),
            Second => kids.get(1).into_iter().for_each(|k| must("remove_branch", rm(t, *k))),
            Last => kids.last().into_iter().for_each(|k| must("remove_branch", rm(t, *k))),
            Fold if here => {
                fn text(t: &LTree, o: &mut String) {
                    o.push_str(&t.data);
                    t.kids.iter().for_each(|k| text(k, o));
                }
                let mut o = String::new();
                if let Ok(l) = read_tree(t, id) {
                    text(&l, &mut o);
                }
                must("get_node_mut", t.get_node_mut(id).map(|n| n.data = o).map_err(|e| e.to_string()));
                kids.iter().for_each(|k| must("remove_branch", rm(t, *k)));
            }
            Own if here => must("remove_branch", rm(t, id)),
            Keep => st.kept = kids.first().copied(),
            KeepOwn => st.kept = Some(id),
            DropKept => {
                if let Some(k) = st.kept.filter(|k| t.node_exists(*k)) {
                    must("remove_branch", rm(t, k));
                }
            }
            AddKept => {
                if let Some(k) = st.kept.filter(|k| t.node_exists(*k)) {
                    must("add_node", t.add_node(tag, Some(k)).map(|_| ()).map_err(|e| e.to_string()));
                }
            }
            SetKept => {
                if let Some(k) = st.kept.filter(|k| t.node_exists(*k)) {
                    must("get_node_mut", t.get_node_mut(k).map(|n| n.data.push_str(&tag)).map_err(|e| e.to_string()));
                }
            }
            SetFirst => kids.first().into_iter().for_each(|k| must("get_node_mut", t.get_node_mut(*k).map(|n| n.data = tag.clone()).map_err(|e| e.to_string()))),
            _ => {}
        }
    }
    fn create_new_state() -> State {
        State::default()
    }
}

fn decide(g: &mut Gram, an: &An, ops: &[Vec<Op>], scripts: &[Vec<char>], st: &mut Stat) -> Result<(), String> {
    for r in 0..g.nts.len() {
        g.acts[r] = (!ops[r].is_empty()).then(|| ops[r].iter().map(|o| OPS.iter().find(|x| x.1 == *o).unwrap().0).collect::<Vec<_>>().join(" "));
    }
    let text = g.render();
    let vm = EditVm;
    let Ok(mut p) = catch(|| Parser::new_from_text(&text, &vm)) else {
        st.skipped += 1;
        return Ok(());
    };
    let texts: Vec<String> = scripts.iter().map(|s| s.iter().collect()).collect();
    for (s, t) in scripts.iter().zip(&texts) {
        let mut run = Run { g, an, ops, s, pos: 0, m: Model::default(), kept: None, mine: vec![], out: vec![] };
        let ok = run.rule(g.start, None) && run.pos == s.len();
        let mut state = State::default();
        st.states += 1;
        st.transitions += run.out.len() as u64;
        let r = catch(|| p.parse(t, &mut state)).map_err(|e| format!("{e}\n{text}\n{}", describe(g, s)))?;
        st.traces += 1;
        let say = |w: String| Err(format!("{w}\nrules:\n{text}\n{}", describe(g, s)));
        if r.is_ok() != ok {
            return say(format!("the script is {}, although actions do not bear on that: {:?}", if ok { "refused" } else { "accepted" }, r.err()));
        }
        if let Some(o) = &state.odd {
            return say(o.clone());
        }
        for (k, (a, b)) in state.seen.iter().zip(&run.out).enumerate() {
            if a != b {
                let w = |s: &Seen| format!("{}#{} at {:?} of {}, alive {:?}", s.rule, s.k, s.path, s.whole.as_ref().map_or("nothing".into(), |t| t.show()), s.alive);
                return say(format!("action {k} is\n  {}\nbut should be\n  {}", w(a), w(b)));
            }
        }
        if state.seen.len() != run.out.len() {
            return say(format!("{} actions were run, {} should be", state.seen.len(), run.out.len()));
        }
        if let Ok(tree) = r {
            let want = run.m.n.contains_key(&0).then(|| run.m.tree(0));
            let got = read_tree(&tree, root());
            if got.as_ref().ok() != want.as_ref() {
                let sh = |t: Option<&LTree>| t.map_or("no tree".into(), |t| t.show());
                return say(format!("the tree returned is {}, but should be {}", sh(got.as_ref().ok()), sh(want.as_ref())));
            }
            for (n, id) in state.mine.iter().zip(&run.mine) {
                let want = run.m.n.contains_key(id).then(|| run.m.tree(*id));
                if read_tree(&tree, *n).ok() != want {
                    return say(format!("the node of an action is {:?} afterwards, but should be {want:?}", read_tree(&tree, *n)));
                }
            }
        }
        st.count(if ok { "accepted" } else { "rejected" });
    }
    Ok(())
}
/// No operation, one, or two.
fn lists() -> Vec<Vec<Op>> {
    let mut v = vec![vec![]];
    for (_, a) in OPS {
        v.push(vec![*a]);
    }
    for (_, a) in OPS {
        for (_, b) in OPS {
            v.push(vec![*a, *b]);
        }
    }
    v
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let texts = [
            "start -> \"x\" a a \"y\"; a -> \"a\" b | b; b -> \"b\" b | #;",
            "start -> a start | \"z\"; a -> \"(\" b \")\" a | \"a\"; b -> start \"b\" | #;",
            "start -> b \"a\" b \"c\" a; a -> start \"a\" | #; b -> \"b\" \"b\" | \"\" ;",
            "start -> \"a\" b \"b\" a start | #; a -> \"c\"; b -> a | #;",
        ];
        let ls = lists();
        let nl = ls.len() as u64;
        let ones: Vec<Vec<Op>> = ls.iter().filter(|l| l.len() < 2).cloned().collect();
        let n1 = ones.len() as u64;
        let depth = if q { 5 } else { 7 };
        let scripts = move |g: &Gram, an: &An, depth: usize| -> Vec<Vec<char>> {
            let sg = hx::fam::sigma(g);
            probes(g, an, &sg, depth, 4000, false).into_iter().map(|p| p.s).collect()
        };
        // three rules with two operations each, in every position
        let subs: Vec<(Gram, An, Vec<Vec<char>>)> = texts
            .iter()
            .map(|t| {
                let g = hx::refread::gram_of(t);
                let an = analyse(&g);
                let s = scripts(&g, &an, depth).into_iter().filter(|s| machine(&g, &an, s).error.is_none() || s.len() < 4).collect();
                (g, an, s)
            })
            .collect();
        {
            let (ls, ones, subs) = (ls.clone(), ones.clone(), subs.clone());
            families.push(family(
                "assignments",
                &format!("{} grammars of 3 rules; {} edits; every assignment with up to two edits on one rule and up to one on the others; all sentences up to length {depth}, all other scripts up to 3", texts.len(), OPS.len()),
                texts.len() as u64 * 3 * nl * n1 * n1,
                move |i, st| {
                    let (which, i) = ((i % texts.len() as u64) as usize, i / texts.len() as u64);
                    let (r, i) = ((i % 3) as usize, i / 3);
                    let (two, i) = (&ls[(i % nl) as usize], i / nl);
                    let mut ops = vec![ones[(i % n1) as usize].clone(), ones[(i / n1) as usize].clone()];
                    ops.insert(r, two.clone());
                    let (mut g, an, s) = subs[which].clone();
                    decide(&mut g, &an, &ops, &s, st)
                },
            ));
        }
        // every grammar, with edits that depend on its number
        for f in hx::fam::standard(tier) {
            let mk = f.make.clone();
            let b = f.bound.split("; scripts").next().unwrap().to_string();
            let (ls, sg) = (ls.clone(), f.sigma.clone());
            let d = f.maxlen.min(if q { 4 } else { 5 });
            families.push(family(f.name, &format!("{b}; edits that vary with the grammar; scripts up to length {d}"), f.n, move |i, st| {
                let mut g = mk(i);
                let an = analyse(&g);
                if !an.ll1() {
                    st.skipped += 1;
                    return Ok(());
                }
                let sg = sg.clone().unwrap_or_else(|| hx::fam::sigma(&g));
                let s: Vec<Vec<char>> = probes(&g, &an, &sg, d, 4000, false).into_iter().map(|p| p.s).collect();
                let ops: Vec<Vec<Op>> = (0..g.nts.len() as u64).map(|r| ls[((i * 31 + r * 17 + i / 97) % nl) as usize].clone()).collect();
                decide(&mut g, &an, &ops, &s, st)
            }));
        }
        // trees that grow while parts of them are removed
        let sizes = langs::sizes(if q { 260 } else { 520 });
        let ns = sizes.len() as u64;
        families.push(family(
            "long",
            &format!("{} grammars whose sentences grow, sizes 1..40 and around powers of two up to {}; every edit, alone and with every other, on every rule", langs::GROW, sizes.last().unwrap()),
            ns * langs::GROW as u64 * (nl - 1),
            move |i, st| {
                let (which, i) = ((i % langs::GROW as u64) as usize, i / langs::GROW as u64);
                let (n, i) = (sizes[(i % ns) as usize], i / ns);
                // every edit sees the whole tree: larger sizes with single edits only
                let l = &ls[i as usize + 1];
                if n > 40 && l.len() > 1 || n > 12 && l.len() > 1 && q {
                    st.skipped += 1;
                    return Ok(());
                }
                let (mut g, s) = langs::grow(which, n);
                let an = analyse(&g);
                let ops = vec![l.clone(); g.nts.len()];
                decide(&mut g, &an, &ops, &[s], st)
            },
        ));
        Check {
            id: "C27",
            technique: "exhaustive bounded exploration of (grammar, edits done by actions, script) on the real parser against a model tree",
            assumptions: vec![
                "actions edit the subtree of their node, their own node or nodes of earlier actions; an action that removes a node still being parsed is left open".into(),
            ],
            families,
        }
    })
}
