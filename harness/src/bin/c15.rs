//! C15: the tree container keeps structure and handles straight under any history.
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use hx::fam;
use hx::gram::*;
use hx::run::*;
use hx::vmx::{describe, read_tree, LTree};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Root,
    Under(usize),
    Remove(usize),
    Write(usize),
}
struct MNode {
    parent: Option<usize>,
    kids: Vec<usize>,
    alive: bool,
    data: u32,
}
/// The real tree with the reference next to it. Nodes are numbered in order of addition.
struct Both {
    t: Tree<u32>,
    m: Vec<MNode>,
    ids: Vec<NodeId>,
    fresh: u32,
}
impl Both {
    fn new() -> Both {
        Both { t: Tree::new(), m: vec![], ids: vec![], fresh: 100 }
    }
    fn step(&mut self, op: Op) -> Result<(), String> {
        match op {
            Op::Root | Op::Under(_) => {
                let parent = match op {
                    Op::Under(p) => Some(p),
                    _ => None,
                };
                self.fresh += 1;
                let r = self.t.add_node(self.fresh, parent.map(|p| self.ids[p]));
                let ok = parent.is_none_or(|p| self.m[p].alive);
                match r {
                    Ok(id) => {
                        if !ok {
                            return Err("a node was added under a removed node".into());
                        }
                        let me = self.m.len();
                        self.m.push(MNode { parent, kids: vec![], alive: true, data: self.fresh });
                        if self.ids.contains(&id) {
                            return Err(format!("handle {id} was issued before"));
                        }
                        self.ids.push(id);
                        if let Some(p) = parent {
                            self.m[p].kids.push(me);
                        }
                    }
                    Err(e) => {
                        if ok {
                            return Err(format!("adding a node failed: {e}"));
                        }
                    }
                }
            }
            Op::Remove(h) => {
                let r = self.t.remove_branch(self.ids[h]);
                if r.is_ok() != self.m[h].alive {
                    return Err(format!("removing a {} node gave {r:?}", if self.m[h].alive { "live" } else { "removed" }));
                }
                if self.m[h].alive {
                    if let Some(p) = self.m[h].parent {
                        self.m[p].kids.retain(|k| *k != h);
                    }
                    self.kill(h);
                }
            }
            Op::Write(h) => {
                self.fresh += 1;
                match self.t.get_node_mut(self.ids[h]) {
                    Ok(n) => {
                        if !self.m[h].alive {
                            return Err("a removed node can be written".into());
                        }
                        n.data = self.fresh;
                        self.m[h].data = self.fresh;
                    }
                    Err(e) => {
                        if self.m[h].alive {
                            return Err(format!("get_node_mut of a live node: {e}"));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn kill(&mut self, h: usize) {
        self.m[h].alive = false;
        for k in self.m[h].kids.clone() {
            self.kill(k);
        }
    }
    fn desc(&self, h: usize, out: &mut Vec<usize>) {
        for k in &self.m[h].kids {
            out.push(*k);
            self.desc(*k, out);
        }
    }
    /// Every query through every handle ever issued.
    fn check(&self) -> Result<(), String> {
        let num = |id: &NodeId| self.ids.iter().position(|x| x == id);
        for h in 0..self.m.len() {
            let (id, m) = (self.ids[h], &self.m[h]);
            let e = |w: String| Err(format!("node {h} ({}): {w}", if m.alive { "live" } else { "removed" }));
            if self.t.node_exists(id) != m.alive {
                return e("node_exists is wrong".into());
            }
            let kids: Vec<Option<usize>> = self.t.get_children(id).iter().map(num).collect();
            let want: Vec<Option<usize>> = if m.alive { m.kids.iter().map(|k| Some(*k)).collect() } else { vec![] };
            if kids != want {
                return e(format!("children {kids:?}, expected {want:?}"));
            }
            let mut d: Vec<Option<usize>> = self.t.get_descendants(id).iter().map(num).collect();
            let mut w = vec![];
            if m.alive {
                self.desc(h, &mut w);
            }
            let mut w: Vec<Option<usize>> = w.into_iter().map(Some).collect();
            d.sort();
            w.sort();
            if d != w {
                return e(format!("descendants {d:?}, expected {w:?}"));
            }
            match self.t.get_node(id) {
                Err(x) => {
                    if m.alive {
                        return e(format!("get_node: {x}"));
                    }
                    if self.t.get_by_path_or_none(id, std::iter::empty()).is_ok()
                        || self.t.get_by_path_or_none(id, [0].into_iter()).is_ok()
                    {
                        return e("path query through a removed node succeeds".into());
                    }
                }
                Ok(n) => {
                    if !m.alive {
                        return e("can still be read".into());
                    }
                    if n.data != m.data {
                        return e(format!("holds {}, expected {}", n.data, m.data));
                    }
                    for k in 0..=m.kids.len() + 1 {
                        let w = m.kids.get(k).map(|c| self.m[*c].data);
                        let a = self.t.get_nth_child_or_none(n, k).map(|x| x.data);
                        let b = self.t.get_nth_child(n, k).ok().map(|x| x.data);
                        let c = self.t.get_by_path_or_none(id, [k].into_iter()).map(|x| x.map(|x| x.data));
                        if a != w || b != w || c.as_ref().ok() != Some(&w) {
                            return e(format!("child {k}: {a:?} {b:?} {c:?}, expected {w:?}"));
                        }
                    }
                }
            }
        }
        // paths from every live node to every descendant
        for h in 0..self.m.len() {
            if !self.m[h].alive {
                continue;
            }
            let (mut path, mut x) = (vec![], h);
            loop {
                let p: Vec<usize> = path.iter().rev().copied().collect();
                let r = self.t.get_by_path_or_none(self.ids[x], p.iter().copied());
                if r.as_ref().ok().and_then(|n| n.map(|n| n.data)) != Some(self.m[h].data) {
                    return Err(format!("path {p:?} from node {x} does not lead to node {h}"));
                }
                let mut q = p.clone();
                q.push(self.m[h].kids.len());
                if !matches!(self.t.get_by_path_or_none(self.ids[x], q.iter().copied()), Ok(None)) {
                    return Err(format!("path {q:?} from node {x} leads somewhere"));
                }
                match self.m[x].parent {
                    None => break,
                    Some(pp) => {
                        path.push(self.m[pp].kids.iter().position(|k| *k == x).unwrap());
                        x = pp;
                    }
                }
            }
        }
        Ok(())
    }
}
/// Ids the tree never handed out: every use fails and changes nothing.
fn strangers(ops: &[Op], st: &mut Stat) -> Result<(), String> {
    let mut b = replay(ops)?;
    let n = b.m.len();
    let around = |n: usize| (0..n + 3).chain([255, 65536, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
    for node_ptr in around(n) {
        for node_pk in around(n) {
            let id = NodeId { node_ptr, node_pk };
            if b.ids.contains(&id) {
                continue;
            }
            st.transitions += 8;
            let e = |w: &str| Err(format!("{w} through the id {id:?}, which was never handed out\nafter {ops:?}"));
            let t = &mut b.t;
            if t.node_exists(id) {
                return e("a node is said to exist");
            }
            if t.get_node(id).is_ok() {
                return e("a node is read");
            }
            if t.get_node_mut(id).is_ok() {
                return e("a node is writable");
            }
            if !t.get_children(id).is_empty() || !t.get_descendants(id).is_empty() {
                return e("children are listed");
            }
            if t.get_by_path_or_none(id, std::iter::empty()).is_ok() || t.get_by_path_or_none(id, [0].into_iter()).is_ok() {
                return e("a path query succeeds");
            }
            if t.add_node(1, Some(id)).is_ok() {
                return e("a node is added");
            }
            if t.remove_branch(id).is_ok() {
                return e("a branch is removed");
            }
            b.check().map_err(|x| format!("{x}\nafter refused uses of the id {id:?}, which was never handed out\nafter {ops:?}"))?;
        }
    }
    // the refused additions left no trace in what is added later either
    for o in [Op::Root, Op::Under(n), Op::Under(n), Op::Under(0), Op::Remove(n)] {
        b.step(o).map_err(|x| format!("{x}\nat {o:?} after refused uses of ids that were never handed out\nafter {ops:?}"))?;
    }
    b.check().map_err(|x| format!("{x}\nafter refused uses of ids that were never handed out and further additions\nafter {ops:?}"))
}
fn strangers_all(ops: &mut Vec<Op>, depth: usize, st: &mut Stat) -> Result<(), String> {
    st.states += 1;
    st.traces += 1;
    catch(|| strangers(ops, st)).unwrap_or_else(|p| Err(format!("{p}\nafter {ops:?}")))?;
    if depth == 0 {
        return Ok(());
    }
    for o in options(added(ops), false) {
        ops.push(o);
        strangers_all(ops, depth - 1, st)?;
        ops.pop();
    }
    Ok(())
}
fn replay(ops: &[Op]) -> Result<Both, String> {
    let mut b = Both::new();
    for (i, o) in ops.iter().enumerate() {
        b.step(*o).map_err(|e| format!("{e}\nat step {i} of {ops:?}"))?;
    }
    b.check().map_err(|e| format!("{e}\nafter {ops:?}"))?;
    Ok(b)
}
/// How many nodes a history has added, by the rules alone (the code under test does not run here).
fn added(ops: &[Op]) -> usize {
    let mut m: Vec<(Option<usize>, bool)> = vec![];
    for o in ops {
        match *o {
            Op::Root => m.push((None, true)),
            Op::Under(p) => {
                if m[p].1 {
                    m.push((Some(p), true))
                }
            }
            Op::Remove(h) => {
                m[h].1 = false;
                for i in h..m.len() {
                    if m[i].0.is_some_and(|p| !m[p].1) {
                        m[i].1 = false;
                    }
                }
            }
            Op::Write(_) => {}
        }
    }
    m.len()
}
/// All histories that extend `ops` by up to `depth` operations.
fn explore(ops: &mut Vec<Op>, depth: usize, write: bool, st: &mut Stat) -> Result<(), String> {
    let b = replay(ops)?;
    st.states += 1;
    st.traces += 1;
    if depth == 0 {
        st.sample(|| format!("{ops:?}"));
        return Ok(());
    }
    for o in options(b.m.len(), write) {
        ops.push(o);
        st.transitions += 1;
        explore(ops, depth - 1, write, st)?;
        ops.pop();
    }
    Ok(())
}
fn options(n: usize, write: bool) -> Vec<Op> {
    let mut v = vec![Op::Root];
    v.extend((0..n).map(Op::Under));
    v.extend((0..n).map(Op::Remove));
    if write {
        v.extend((0..n).map(Op::Write));
    }
    v
}
fn run_ops(ops: Vec<Op>, st: &mut Stat) -> Result<(), String> {
    st.states += 1;
    st.traces += 1;
    st.transitions += ops.len() as u64;
    replay(&ops)?;
    Ok(())
}

// ---------------------------------------------------------------- trees edited by actions

/// Actions that edit the subtree they are given: section text is a list of letters.
/// p: remove the first child; l: remove the last child; g: graft a child; s: remove the node itself
struct EditVm;
impl VM for EditVm {
    type Tstate = bool;
    type Tinstrution = char;
    fn parse_instructions<'a, T>(&'a self, _: &str, p: &mut ParseProcess<T>) -> Result<Vec<char>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        Ok(p.by_ref().collect())
    }
    fn execute_instruction(&self, t: &mut Tree<String>, n: NodeId, i: &char, odd: &mut bool) {
        let kids = t.get_children(n);
        let r = match i {
            'p' => kids.first().map(|k| t.remove_branch(*k)).unwrap_or(Ok(())),
            'l' => kids.last().map(|k| t.remove_branch(*k)).unwrap_or(Ok(())),
            'g' => t.add_node("G".into(), Some(n)).map(|_| ()),
            _ => t.remove_branch(n),
        };
        if r.is_err() {
            *odd = true;
        }
    }
    fn create_new_state() -> bool {
        false
    }
}
/// The same on the derivation; None: the node removed itself.
fn edited(g: &Gram, d: &DTree) -> Option<LTree> {
    match d {
        DTree::Leaf(t) => Some(LTree { data: t.clone(), kids: vec![] }),
        DTree::Node(r, k) => {
            let mut kids: Vec<LTree> = k.iter().filter_map(|c| edited(g, c)).collect();
            for c in g.acts[*r].as_deref().unwrap_or("").chars() {
                match c {
                    'p' => {
                        if !kids.is_empty() {
                            kids.remove(0);
                        }
                    }
                    'l' => {
                        kids.pop();
                    }
                    'g' => kids.push(LTree { data: "G".into(), kids: vec![] }),
                    _ => return None,
                }
            }
            Some(LTree { data: String::new(), kids })
        }
    }
}

/// Large trees, by construction: `n` nodes under one, in a chain, in pairs below pairs, or as roots.
struct Big {
    t: Tree<usize>,
    ids: Vec<NodeId>,
    /// data of each handle's node, None when removed
    data: Vec<Option<usize>>,
    kids: Vec<Vec<usize>>,
}
impl Big {
    fn add(&mut self, under: Option<usize>) -> Result<usize, String> {
        let me = self.ids.len();
        let id = self.t.add_node(me + 7, under.map(|u| self.ids[u])).map_err(|e| format!("node {me} under {under:?}: {e}"))?;
        self.ids.push(id);
        self.data.push(Some(me + 7));
        self.kids.push(vec![]);
        if let Some(u) = under {
            self.kids[u].push(me);
        }
        Ok(me)
    }
    fn remove(&mut self, h: usize, under: Option<usize>) -> Result<(), String> {
        self.t.remove_branch(self.ids[h]).map_err(|e| format!("removing node {h}: {e}"))?;
        if let Some(u) = under {
            self.kids[u].retain(|k| *k != h);
        }
        let mut todo = vec![h];
        while let Some(x) = todo.pop() {
            self.data[x] = None;
            todo.append(&mut self.kids[x]);
        }
        Ok(())
    }
    /// Handles at the ends, in the middle and around every multiple of 4096; those given besides.
    fn check(&self, more: &[usize], deep: bool) -> Result<(), String> {
        let seen: std::collections::HashSet<NodeId> = self.ids.iter().copied().collect();
        if seen.len() != self.ids.len() {
            return Err("a handle was issued twice".into());
        }
        let n = self.ids.len();
        let mut at: Vec<usize> = (0..n).filter(|h| n < 300 || h % 4096 < 2 || h % 4096 == 4095 || *h + 3 > n).chain(more.iter().copied()).collect();
        at.sort();
        at.dedup();
        for h in at {
            let e = |w: String| Err(format!("node {h} of {n}: {w}"));
            let id = self.ids[h];
            let got = self.t.get_node(id).ok().map(|x| x.data);
            if got != self.data[h] || self.t.node_exists(id) != got.is_some() {
                return e(format!("holds {got:?}, expected {:?}", self.data[h]));
            }
            let want: Vec<NodeId> = self.kids[h].iter().map(|k| self.ids[*k]).collect();
            let kids = self.t.get_children(id);
            if kids != want {
                let k = kids.iter().zip(&want).take_while(|x| x.0 == x.1).count();
                return e(format!("{} children, expected {}; they differ from the {k}th on", kids.len(), want.len()));
            }
            let Some(_) = got else { continue };
            let m = want.len();
            let node = self.t.get_node(id).map_err(|e| e.to_string())?;
            for k in [0, 1, 254, 255, 256, m / 2, 65534, 65535, 65536, m.saturating_sub(1), m, m + 1] {
                let w = self.kids[h].get(k).and_then(|c| self.data[*c]);
                let a = self.t.get_nth_child_or_none(node, k).map(|x| x.data);
                let b = self.t.get_nth_child(node, k).ok().map(|x| x.data);
                let c = self.t.get_by_path_or_none(id, [k].into_iter()).ok().flatten().map(|x| x.data);
                if a != w || b != w || c != w {
                    return e(format!("child {k}: {a:?} {b:?} {c:?}, expected {w:?}"));
                }
            }
        }
        if deep && self.data[0].is_some() {
            let mut d: Vec<NodeId> = self.t.get_descendants(self.ids[0]);
            let mut want = vec![];
            let mut todo = vec![0];
            while let Some(x) = todo.pop() {
                want.extend(self.kids[x].iter().map(|k| self.ids[*k]));
                todo.extend(self.kids[x].iter().copied());
            }
            let key = |i: &NodeId| (i.node_ptr, i.node_pk);
            d.sort_by_key(key);
            want.sort_by_key(key);
            if d != want {
                return Err(format!("{} descendants of the root, expected {}", d.len(), want.len()));
            }
        }
        Ok(())
    }
}
fn big(shape: u64, n: usize, st: &mut Stat) -> Result<(), String> {
    let mut b = Big { t: Tree::new(), ids: vec![], data: vec![], kids: vec![] };
    st.states += 1;
    st.traces += 1;
    st.transitions += n as u64;
    b.add(None)?;
    let parent = |k: usize| match shape {
        _ if k == 0 => None,
        0 => Some(0),
        1 => Some(k - 1),
        2 => Some((k - 1) / 2),
        3 => if k % 2 == 1 { Some(0) } else { Some(k - 1) },
        _ => None,
    };
    for k in 1..=n {
        b.add(parent(k))?;
    }
    let deep = shape != 1 || n < 5000;
    b.check(&[n / 2], deep)?;
    // the path to the last node and one step further
    let (mut path, mut h) = (vec![], n);
    while let Some(p) = parent(h) {
        path.push(b.kids[p].binary_search(&h).unwrap());
        h = p;
    }
    path.reverse();
    let to = |p: &[usize]| b.t.get_by_path_or_none(b.ids[h], p.iter().copied()).ok().flatten().map(|x| x.data);
    if to(&path) != b.data[n] {
        return Err(format!("the path of {} steps to the last node leads to {:?}", path.len(), to(&path)));
    }
    path.push(0);
    if to(&path).is_some() {
        return Err("a path beyond the last node leads somewhere".into());
    }
    // take away the last, some in the middle, the first; then everything again
    let mut gone = vec![];
    let removals = match shape {
        1 => vec![n, n - 1, n - 3],
        2 => vec![n, n / 2, n / 4 + 1],
        _ => vec![n, n / 2, 1, n - 1],
    };
    for r in removals {
        if b.data[r].is_none() {
            continue;
        }
        let p = parent(r);
        b.remove(r, p)?;
        gone.push(r);
        b.check(&gone, false)?;
    }
    for k in 0..4 {
        let p = parent(n + 1).filter(|p| b.data[*p].is_some()).or(parent(1));
        gone.push(b.add(p)?);
        if k == 1 {
            gone.push(b.add(None)?);
        }
    }
    b.check(&gone, deep)?;
    if deep {
        b.remove(0, None)?;
        b.check(&gone, deep)?;
        for _ in 0..3 {
            gone.push(b.add(None)?);
        }
        let last = *gone.last().unwrap();
        gone.push(b.add(Some(last))?);
        if b.t.add_node(0, Some(b.ids[n])).is_ok() {
            return Err("a node was added under a removed one".into());
        }
        b.check(&gone, deep)?;
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        // prefixes of length 3 spread over the workers
        for (name, write, depth) in [("histories", false, if q { 10 } else { 11 }), ("histories-write", true, if q { 8 } else { 9 })] {
            let mut prefixes: Vec<Vec<Op>> = vec![vec![]];
            for _ in 0..5 {
                prefixes = prefixes
                    .iter()
                    .flat_map(|p| {
                        options(added(p), write).into_iter().map(move |o| { let mut x = p.clone(); x.push(o); x })
                    })
                    .collect();
            }
            families.push(family(
                name,
                &format!("all histories of up to {depth} operations: add a root, add under or remove any node ever added{}; every query through every handle afterwards", if write { ", write a node" } else { "" }),
                prefixes.len() as u64 + 1,
                move |i, st| {
                    if i == 0 {
                        explore(&mut vec![], 4, write, st)
                    } else {
                        explore(&mut prefixes[i as usize - 1].clone(), depth - 5, write, st)
                    }
                },
            ));
        }
        {
            let depth = if q { 6 } else { 7 };
            let mut prefixes: Vec<Vec<Op>> = vec![vec![]];
            for _ in 0..3 {
                prefixes = prefixes
                    .iter()
                    .flat_map(|p| options(added(p), false).into_iter().map(move |o| { let mut x = p.clone(); x.push(o); x }))
                    .collect();
            }
            families.push(family(
                "strangers",
                &format!("all histories of up to {depth} operations, then every use of ids the tree never handed out: slots and keys 0.. past the largest in use, 255, 65536 and the largest numbers"),
                prefixes.len() as u64 + 1,
                move |i, st| {
                    if i == 0 {
                        strangers_all(&mut vec![], 2, st)
                    } else {
                        strangers_all(&mut prefixes[i as usize - 1].clone(), depth - 3, st)
                    }
                },
            ));
        }
        // a comb with all subsets of children removed and others added, twice
        let n = if q { 10u64 } else { 12 };
        families.push(family(
            "subsets",
            &format!("nodes with up to {n} children, some with children of their own: every subset removed in either order, as many or more added again, every second one removed again"),
            (1..=n).map(|k| 1 << k).sum::<u64>() * 8,
            move |i, st| {
                let (mut i, v) = (i / 8, i % 8);
                let mut k = 1;
                while i >= 1 << k {
                    i -= 1 << k;
                    k += 1;
                }
                let mut ops = vec![Op::Root];
                let mut cnt = 1;
                let mut kids = vec![];
                for c in 0..k as usize {
                    kids.push(cnt);
                    ops.push(Op::Under(0));
                    cnt += 1;
                    if v & 1 == 1 && c % 2 == 0 {
                        ops.push(Op::Under(cnt - 1));
                        ops.push(Op::Under(cnt));
                        cnt += 2;
                    }
                }
                let mut rem: Vec<usize> = kids.iter().enumerate().filter(|(j, _)| i >> j & 1 == 1).map(|x| *x.1).collect();
                if v & 2 == 2 {
                    rem.reverse();
                }
                ops.extend(rem.iter().map(|h| Op::Remove(*h)));
                run_ops(ops.clone(), st)?;
                let more = rem.len() + if v & 4 == 4 { 3 } else { 0 };
                let mut added = vec![];
                for a in 0..more {
                    // under the root, or under what was added before
                    let under = if a % 3 == 2 { added[a - 1] } else { 0 };
                    ops.push(Op::Under(under));
                    added.push(cnt);
                    cnt += 1;
                }
                run_ops(ops.clone(), st)?;
                for a in added.iter().step_by(2) {
                    ops.push(Op::Remove(*a));
                }
                for h in rem.iter().take(2) {
                    ops.push(Op::Remove(*h));
                    ops.push(Op::Under(*h));
                }
                ops.push(Op::Root);
                ops.push(Op::Under(cnt));
                run_ops(ops, st)
            },
        ));
        // every ordered pair of removals in a given shape, then rebuilding
        let depth = if q { 6u64 } else { 7 };
        families.push(family(
            "shapes",
            &format!("every tree or forest of up to {depth} nodes, every pair of removals, then rebuilding the same shape and every single removal"),
            (1..=depth).map(|k| (1..=k).product::<u64>()).sum(),
            move |mut i, st| {
                let mut k = 1;
                while i >= (1..=k).product::<u64>() {
                    i -= (1..=k).product::<u64>();
                    k += 1;
                }
                // parent of node j: a root or any earlier node
                let mut build = vec![];
                for j in 0..k as usize {
                    let p = (i % (j as u64 + 1)) as usize;
                    i /= j as u64 + 1;
                    build.push(if p == j { Op::Root } else { Op::Under(p) });
                }
                let k = k as usize;
                for a in 0..k {
                    for b in 0..k {
                        let mut ops = build.clone();
                        ops.push(Op::Remove(a));
                        ops.push(Op::Remove(b));
                        run_ops(ops.clone(), st)?;
                        for o in &build {
                            ops.push(match o {
                                Op::Under(p) => Op::Under(p + k),
                                o => *o,
                            });
                        }
                        run_ops(ops.clone(), st)?;
                        for c in 0..2 * k {
                            ops.push(Op::Remove(c));
                            run_ops(ops.clone(), st)?;
                            ops.push(Op::Root);
                            ops.push(Op::Under(2 * k));
                            ops.push(Op::Under(2 * k));
                            run_ops(ops.clone(), st)?;
                            ops.truncate(ops.len() - 4);
                        }
                    }
                }
                Ok(())
            },
        ));
        families.push(family(
            "long",
            "1..300 rounds of adding two nodes and removing one, at the root or in a chain; storage is reused every round",
            600,
            |i, st| {
                let n = (i / 2 + 1) as usize;
                let mut ops = vec![Op::Root];
                let mut cnt = 1;
                let mut tip = 0;
                for _ in 0..n.min(150) {
                    ops.push(Op::Under(tip));
                    ops.push(Op::Under(tip));
                    ops.push(Op::Remove(cnt));
                    if i % 2 == 1 {
                        tip = cnt + 1;
                    }
                    cnt += 2;
                }
                run_ops(ops, st)
            },
        ));
        families.push(family(
            "huge",
            "trees of n nodes (all under one, in a chain, binary, every second below the one before, all roots), n around 128, 256, 4096, 32768, 65536 and 70000: queries, the path to the last node, removals at the ends and in the middle, additions, removal of everything, additions again",
            hx::huge::SIZES.len() as u64 * 5,
            |i, st| {
                let (shape, n) = (i % 5, hx::huge::SIZES[(i / 5) as usize]);
                catch(|| big(shape, n, st)).unwrap_or_else(|p| Err(p.to_string())).map_err(|e| format!("{e}\nin a tree of shape {shape}, {n} nodes"))
            },
        ));
        // trees edited by the actions of a parse
        let sections = ["", "p", "l", "g", "pg", "gg", "ppl", "s", "lgp"];
        let mut fs = vec![fam::two(4), fam::chain(3)];
        if !q {
            fs.push(fam::words(tier, 5));
        }
        for f in fs {
            let mk = f.make.clone();
            families.push(family(
                &format!("parse-{}", f.name),
                &format!("{}: actions that prune, graft or remove the nodes they are given; the resulting tree", f.bound),
                f.n * 9,
                move |i, st| {
                    let mut g = mk(i / 9);
                    let an = analyse(&g);
                    if !an.ll1() {
                        st.skipped += 1;
                        return Ok(());
                    }
                    for r in 0..g.nts.len() {
                        let s = sections[((i + r as u64 * (1 + i / 9 % 8)) % 9) as usize];
                        // the root stays
                        if !s.is_empty() && !(r == g.start && s == "s") {
                            g.acts[r] = Some(s.into());
                        }
                    }
                    let text = g.render();
                    let vm = EditVm;
                    let Ok(mut p) = catch(|| Parser::new_from_text(&text, &vm)) else {
                        st.skipped += 1;
                        return Ok(());
                    };
                    let uses_start = g.rules.iter().flatten().flatten().any(|s| *s == Sym::N(g.start));
                    if uses_start && g.acts[g.start].as_deref() == Some("s") {
                        return Ok(());
                    }
                    let sg = fam::sigma(&g);
                    let cases: Vec<(DTree, Vec<char>, String)> = probes(&g, &an, &sg, 4, 2000, true)
                        .into_iter()
                        .filter_map(|p| p.tree.map(|t| (t, p.s.clone(), p.s.iter().collect())))
                        .collect();
                    for (d, cs, s) in &cases {
                        st.states += 1;
                        st.traces += 1;
                        st.transitions += cs.len() as u64;
                        let mut odd = false;
                        let r = catch(|| p.parse(s, &mut odd)).map_err(|e| format!("{e}\n{text}\n{}", describe(&g, cs)))?;
                        let Ok(t) = r else { continue };
                        let got = read_tree(&t, NodeId { node_ptr: 0, node_pk: 0 });
                        let want = edited(&g, d).unwrap();
                        if odd && !text.contains("{s}") {
                            return Err(format!("an action's edit failed\n{text}\n{}", describe(&g, cs)));
                        }
                        if got.as_ref() != Ok(&want) {
                            return Err(format!(
                                "tree {}\nexpected {}\n{text}\n{}",
                                got.map(|t| t.show()).unwrap_or_else(|e| e),
                                want.show(),
                                describe(&g, cs)
                            ));
                        }
                    }
                    Ok(())
                },
            ));
        }
        Check {
            id: "C15",
            technique: "exhaustive exploration of all operation histories up to a depth against a reference tree",
            assumptions: vec!["a handle of another tree that equals one issued here is that one".into(), "the order in which descendants are listed is left open".into()],
            families,
        }
    })
}
