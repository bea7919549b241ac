//! C16: graph containers store exactly the edges that were added.
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::simple_graph::Graph;
use hx::run::*;

// ---------------------------------------------------------------- the plain graph

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Node,
    Edge(usize, usize),
    EdgeId(usize, usize, usize),
    /// merge one of a few prepared graphs: (which, this node, its node)
    Merge(usize, usize, usize),
}
/// data per node, edges per node as (id, target) by descending id
#[derive(Clone, Default)]
struct Model {
    data: Vec<u32>,
    out: Vec<Vec<(usize, usize)>>,
}
impl Model {
    fn add_node(&mut self, d: u32) {
        self.data.push(d);
        self.out.push(vec![]);
    }
    fn add_edge(&mut self, s: usize, t: usize) {
        let id = self.out[s].first().map(|e| e.0 + 1).unwrap_or(0);
        self.out[s].insert(0, (id, t));
    }
    fn add_id(&mut self, s: usize, t: usize, id: usize) -> bool {
        if self.out[s].iter().any(|e| e.0 == id) {
            return false;
        }
        self.out[s].push((id, t));
        self.out[s].sort_by(|a, b| b.0.cmp(&a.0));
        true
    }
}
/// Small graphs to merge, each as the operations that make it.
const PARTS: &[&[Op]] = &[
    &[Op::Node],
    &[Op::Node, Op::Node, Op::Edge(0, 1)],
    &[Op::Node, Op::Node, Op::Edge(0, 1), Op::Edge(0, 0), Op::EdgeId(0, 1, 5), Op::Edge(1, 0)],
    &[Op::Node, Op::EdgeId(0, 0, 3), Op::EdgeId(0, 0, 1), Op::Node],
];

/// The reference alone; what an explicitly numbered edge has to return.
fn apply_model(m: &mut Model, op: Op) -> bool {
    match op {
        Op::Node => m.add_node(10 + m.data.len() as u32),
        Op::Edge(s, t) => m.add_edge(s, t),
        Op::EdgeId(s, t, id) => return m.add_id(s, t, id),
        Op::Merge(k, this, other) => {
            let mut hm = Model::default();
            for o in PARTS[k] {
                apply_model(&mut hm, *o);
            }
            let off = m.data.len();
            for i in 0..hm.data.len() {
                m.data.push(hm.data[i]);
                m.out.push(hm.out[i].iter().map(|(id, t)| (*id, t + off)).collect());
            }
            m.add_edge(this, other + off);
        }
    }
    true
}
fn apply(g: &mut Graph<u32>, m: &mut Model, op: Op) -> Result<(), String> {
    let n = m.data.len();
    let want = apply_model(m, op);
    match op {
        Op::Node => {
            let i = g.add_node(m.data[n]);
            if i != n {
                return Err(format!("new node got index {i}, expected {n}"));
            }
        }
        Op::Edge(s, t) => g.add_edge(s, t),
        Op::EdgeId(s, t, id) => {
            let a = g.try_add_edge_with_id(s, t, id);
            if a != want {
                return Err(format!("adding edge {id} from {s} returned {a}, expected {want}"));
            }
        }
        Op::Merge(k, this, other) => {
            let mut h = Graph::new();
            let mut hm = Model::default();
            for o in PARTS[k] {
                apply(&mut h, &mut hm, *o)?;
            }
            g.add_graph_at_node(h, this, other);
        }
    }
    Ok(())
}
fn check(g: &Graph<u32>, m: &Model, maxpath: usize) -> Result<(), String> {
    if g.nodes.len() != m.data.len() {
        return Err(format!("{} nodes, expected {}", g.nodes.len(), m.data.len()));
    }
    let total: usize = m.out.iter().map(|o| o.len()).sum();
    if g.edges.len() != total {
        return Err(format!("{} edges, expected {total}", g.edges.len()));
    }
    for n in 0..m.data.len() {
        let e = |w: String| Err(format!("node {n}: {w}"));
        if g.nodes[n].data != m.data[n] {
            return e("wrong data".into());
        }
        let want = &m.out[n];
        let got: Vec<(usize, usize)> =
            g.connected_edges(n).take(total + 1).map(|x| (g.edges[x].id, g.edges[x].target)).collect();
        if got != *want {
            return e(format!("edges (id, target) {got:?}, expected {want:?}"));
        }
        let succ: Vec<usize> = g.successors(n).take(total + 1).collect();
        if succ != want.iter().map(|x| x.1).collect::<Vec<_>>() {
            return e(format!("successors {succ:?}, expected {want:?}"));
        }
        let top = want.first().map(|x| x.0 + 2).unwrap_or(1);
        for id in 0..=top {
            let w = want.iter().find(|x| x.0 == id).map(|x| x.1);
            if g.find_node_index(n, id) != w {
                return e(format!("id {id} leads to {:?}, expected {w:?}", g.find_node_index(n, id)));
            }
            if g.find_node(n, id).map(|x| x.data) != w.map(|w| m.data[w]) {
                return e(format!("find_node by id {id} is wrong"));
            }
        }
        // id paths
        let mut paths: Vec<Vec<usize>> = vec![vec![]];
        let mut last = paths.clone();
        for _ in 0..maxpath {
            last = last.iter().flat_map(|p| (0..3).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
            paths.extend(last.iter().cloned());
        }
        for p in paths {
            let mut w = Some(n);
            for id in &p {
                w = w.and_then(|x| m.out[x].iter().find(|e| e.0 == *id).map(|e| e.1));
            }
            let a = g.find_node_index_by_path(n, p.iter().copied());
            let b = g.find_node_by_path(n, p.iter().copied()).map(|x| x.data);
            if a != w || b != w.map(|w| m.data[w]) {
                return e(format!("path {p:?} leads to {a:?}, expected {w:?}"));
            }
        }
    }
    Ok(())
}
fn options(m: &Model, ids: &[usize], maxn: usize, merge: bool) -> Vec<Op> {
    let n = m.data.len();
    let mut v = vec![];
    if n < maxn {
        v.push(Op::Node);
    }
    for s in 0..n {
        for t in 0..n {
            v.push(Op::Edge(s, t));
            for id in ids {
                v.push(Op::EdgeId(s, t, *id));
            }
        }
    }
    if merge && n + 2 <= maxn + 2 {
        for k in 0..PARTS.len() {
            let pn = PARTS[k].iter().filter(|o| **o == Op::Node).count();
            for s in 0..n {
                for o in 0..pn {
                    v.push(Op::Merge(k, s, o));
                }
            }
        }
    }
    v
}
#[allow(clippy::too_many_arguments)]
fn explore(ops: &mut Vec<Op>, m: &Model, depth: usize, ids: &'static [usize], maxn: usize, merge: bool, maxpath: usize, st: &mut Stat) -> Result<(), String> {
    for o in options(m, ids, maxn, merge) {
        ops.push(o);
        let mut g = Graph::new();
        let mut mm = Model::default();
        let r = catch(|| {
            for o in ops.iter() {
                apply(&mut g, &mut mm, *o)?;
            }
            check(&g, &mm, maxpath)
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("{e}\nafter {ops:?}")),
            Err(p) => return Err(format!("{p}\nafter {ops:?}")),
        }
        st.states += 1;
        st.traces += 1;
        st.transitions += 1;
        if depth > 1 {
            explore(ops, &mm, depth - 1, ids, maxn, merge, maxpath, st)?;
        } else {
            st.sample(|| format!("{ops:?}"));
        }
        ops.pop();
    }
    Ok(())
}
fn graph_family(name: &str, depth: usize, ids: &'static [usize], maxn: usize, merge: bool, maxpath: usize) -> Family {
    // first operations spread over the workers
    let mut pre: Vec<(Vec<Op>, Model)> = vec![(vec![], Model::default())];
    for _ in 0..3 {
        pre = pre
            .iter()
            .flat_map(|(p, m)| {
                options(m, ids, maxn, merge).into_iter().map(move |o| {
                    let mut q = p.clone();
                    q.push(o);
                    // by the reference alone; the prefixes themselves are decided by case 0
                    let mut mm = m.clone();
                    apply_model(&mut mm, o);
                    (q, mm)
                })
            })
            .collect();
    }
    family(
        name,
        &format!("all histories of up to {depth} operations (add node up to {maxn}, add edge, add edge under id {ids:?}{}) between all nodes; every lookup by id and by paths up to length {maxpath}", if merge { ", merge one of 4 graphs at every pair of nodes" } else { "" }),
        pre.len() as u64 + 1,
        move |i, st| {
            if i == 0 {
                return explore(&mut vec![], &Model::default(), 3, ids, maxn, merge, maxpath, st);
            }
            let (p, m) = &pre[i as usize - 1];
            explore(&mut p.clone(), m, depth - 3, ids, maxn, merge, maxpath, st)
        },
    )
}

// ---------------------------------------------------------------- the named graph

#[derive(Clone, Copy, Debug)]
enum NOp {
    Node(usize),
    Edge(usize, usize),
    Write(usize),
    WriteIx(usize),
}
fn named(ops: &[NOp]) -> Result<(), String> {
    let mut g: GraphNamedNodes<u32> = GraphNamedNodes::new();
    // (name, data), edges by position, newest first
    let mut names: Vec<(usize, u32)> = vec![];
    let mut out: Vec<Vec<usize>> = vec![];
    let mut k = 0;
    for o in ops {
        k += 1;
        let pos = |n: usize| names.iter().position(|x| x.0 == n);
        match *o {
            NOp::Node(n) => {
                let r = g.add_node(n, 100 + k);
                match (pos(n), r) {
                    (Some(_), Ok(_)) => return Err(format!("name {n} was registered twice")),
                    (None, Err(e)) => return Err(format!("name {n} was refused: {e}")),
                    (Some(_), Err(_)) => {}
                    (None, Ok(i)) => {
                        if i != names.len() {
                            return Err(format!("node {n} got index {i}, expected {}", names.len()));
                        }
                        names.push((n, 100 + k));
                        out.push(vec![]);
                    }
                }
            }
            NOp::Edge(a, b) => {
                let r = g.add_edge(a, b);
                match (pos(a), pos(b)) {
                    (Some(i), Some(j)) => {
                        r.map_err(|e| format!("edge {a}->{b}: {e}"))?;
                        out[i].insert(0, j);
                    }
                    _ if r.is_ok() => return Err(format!("edge {a}->{b} between unknown names was accepted")),
                    _ => {}
                }
            }
            NOp::Write(n) => match (g.get_node_mut(n), pos(n)) {
                (Ok(x), Some(i)) => {
                    x.data = 100 + k;
                    names[i].1 = 100 + k;
                }
                (Err(_), None) => {}
                (r, p) => return Err(format!("get_node_mut({n}) ok={}, known={}", r.is_ok(), p.is_some())),
            },
            NOp::WriteIx(i) => match (g.get_node_mut_by_index(i), i < names.len()) {
                (Ok(x), true) => {
                    x.data = 100 + k;
                    names[i].1 = 100 + k;
                }
                (Err(_), false) => {}
                (r, p) => return Err(format!("get_node_mut_by_index({i}) ok={}, known={p}", r.is_ok())),
            },
        }
        // everything that can be asked
        for n in 0..4 {
            let p = names.iter().position(|x| x.0 == n);
            let d = g.get_node(n).ok().map(|x| x.data);
            if d != p.map(|i| names[i].1) {
                return Err(format!("node {n} holds {d:?}, expected {:?}", p.map(|i| names[i].1)));
            }
            let s: Option<Vec<usize>> = g.successor_indices(n).ok().map(|s| s.take(50).collect());
            if s.as_ref() != p.map(|i| &out[i]) {
                return Err(format!("successor indices of {n}: {s:?}"));
            }
            let s: Option<Vec<(usize, u32)>> = g.successors(n).ok().map(|s| s.take(50).map(|x| (x.0, x.1.data)).collect());
            let w: Option<Vec<(usize, u32)>> = p.map(|i| out[i].iter().map(|j| (*j, names[*j].1)).collect());
            if s != w {
                return Err(format!("successors of {n}: {s:?}, expected {w:?}"));
            }
        }
        for i in 0..5 {
            let d = g.get_node_by_index(i).ok().map(|x| x.data);
            if d != names.get(i).map(|x| x.1) {
                return Err(format!("index {i} holds {d:?}, expected {:?}", names.get(i)));
            }
        }
        for i in [usize::MAX, usize::MAX - 1, 1000] {
            if g.get_node_by_index(i).is_ok() || g.get_node_mut_by_index(i).is_ok() || g.get_node(i).is_ok() || g.add_edge(i, 0).is_ok() || g.add_edge(0, i).is_ok() {
                return Err(format!("{i} is known"));
            }
        }
    }
    Ok(())
}

/// Large graphs against a model that keeps, per node, the edges by descending id.
fn big(kind: u64, n: usize, st: &mut Stat) -> Result<(), String> {
    let (mut g, mut m) = (Graph::new(), Model::default());
    st.states += 1;
    st.traces += 1;
    st.transitions += n as u64;
    let node = |g: &mut Graph<u32>, m: &mut Model| {
        let d = m.data.len() as u32 * 3 + 1;
        m.add_node(d);
        match g.add_node(d) {
            i if i + 1 == m.data.len() => Ok(()),
            i => Err(format!("new node got index {i}, expected {}", m.data.len() - 1)),
        }
    };
    // edges of node 0, in ascending order of ids; kept aside until the end
    let mut zero: Vec<(usize, usize)> = vec![];
    let nodes = if kind == 0 || kind == 2 { 3 } else { n + 1 };
    for _ in 0..nodes {
        node(&mut g, &mut m)?;
    }
    match kind {
        // n edges out of one node, targets in turn
        0 => {
            for k in 0..n {
                g.add_edge(0, k % 3);
                zero.push((k, k % 3));
            }
        }
        // a ring with a chord back to the first node
        1 => {
            for k in 0..=n {
                g.add_edge(k, (k + 1) % (n + 1));
                g.add_edge(k, 0);
                if k == 0 {
                    zero = vec![(0, 1 % (n + 1)), (1, 0)];
                } else {
                    m.add_edge(k, (k + 1) % (n + 1));
                    m.add_edge(k, 0);
                }
            }
        }
        // explicit ids: every second one, ascending, then a few between, below and far above
        2 => {
            for k in 0..n {
                if !g.try_add_edge_with_id(0, k % 3, 2 * k + 2) {
                    return Err(format!("id {} was refused", 2 * k + 2));
                }
                zero.push((2 * k + 2, k % 3));
            }
            let far = [2 * n + 65536, 2 * n + (1 << 32), usize::MAX / 2];
            for (j, id) in [0, 1, n | 1, 2 * n - 1, 2 * n + 1].into_iter().chain(far).enumerate() {
                if !g.try_add_edge_with_id(0, j % 3, id) {
                    return Err(format!("id {id} was refused"));
                }
                zero.push((id, j % 3));
                if g.try_add_edge_with_id(0, (j + 1) % 3, id) {
                    return Err(format!("id {id} was taken twice"));
                }
            }
            if g.try_add_edge_with_id(0, 0, 2) || g.try_add_edge_with_id(0, 0, n / 2 * 2 + 2) {
                return Err("a known id was taken twice".into());
            }
            zero.sort();
            g.add_edge(0, 2);
            zero.push((usize::MAX / 2 + 1, 2));
        }
        // one to all, and a large graph merged into a large one
        _ => {
            for k in 1..=n {
                g.add_edge(0, k);
                zero.push((k - 1, k));
            }
            let mut h = Graph::new();
            for k in 0..n {
                h.add_node(k as u32);
                if k > 0 {
                    h.add_edge(k, k - 1);
                    h.try_add_edge_with_id(k, 0, 300);
                }
            }
            g.add_graph_at_node(h, n, n - 1);
            m.add_edge(n, n + 1 + n - 1);
            for k in 0..n {
                m.add_node(k as u32);
                if k > 0 {
                    m.add_edge(n + 1 + k, n + k);
                    m.add_id(n + 1 + k, n + 1, 300);
                }
            }
            g.add_edge(n + 1, 0);
            m.add_edge(n + 1, 0);
            g.add_edge(2 * n, n);
            m.add_edge(2 * n, n);
        }
    }
    m.out[0] = zero.iter().rev().copied().collect();
    let total: usize = m.out.iter().map(|o| o.len()).sum();
    if g.nodes.len() != m.data.len() || g.edges.len() != total {
        return Err(format!("{} nodes, {} edges, expected {}, {total}", g.nodes.len(), g.edges.len(), m.data.len()));
    }
    for (i, want) in m.out.iter().enumerate() {
        if g.nodes[i].data != m.data[i] {
            return Err(format!("node {i} holds {}", g.nodes[i].data));
        }
        let got: Vec<(usize, usize)> = g.connected_edges(i).take(total + 1).map(|x| (g.edges[x].id, g.edges[x].target)).collect();
        if got != *want {
            let k = got.iter().zip(want).take_while(|x| x.0 == x.1).count();
            return Err(format!("node {i}: {} edges, expected {}; the {k}th is {:?}, expected {:?}", got.len(), want.len(), got.get(k), want.get(k)));
        }
        if !g.successors(i).take(total + 1).eq(want.iter().map(|x| x.1)) {
            return Err(format!("node {i}: wrong successors"));
        }
        let l = want.len();
        if i % 97 == 0 || i + 300 > m.data.len() || i < 300 {
            for k in [0, 1, 254, 255, 256, l / 2, 4095, 4096, 65534, 65535, 65536, l.saturating_sub(1), l].into_iter().filter_map(|k| want.get(k).map(|x| x.0)).chain([l, 3, 299, 301, usize::MAX]) {
                let w = want.binary_search_by(|x| k.cmp(&x.0)).ok().map(|p| want[p].1);
                if g.find_node_index(i, k) != w || g.find_node(i, k).map(|x| x.data) != w.map(|w| m.data[w]) {
                    return Err(format!("node {i}: id {k} leads to {:?}, expected {w:?}", g.find_node_index(i, k)));
                }
            }
        }
    }
    if kind == 1 {
        for steps in [n, n + 1, n - 1] {
            let w = steps % (n + 1);
            let a = g.find_node_index_by_path(0, std::iter::repeat_n(0, steps));
            let b = g.find_node_by_path(0, std::iter::repeat_n(0, steps)).map(|x| x.data);
            if a != Some(w) || b != Some(m.data[w]) {
                return Err(format!("{steps} steps lead to {a:?}, expected {w}"));
            }
        }
    }
    Ok(())
}
/// n names in the named graph, given out of order, each connected to the one before and to itself.
fn big_named(n: usize, st: &mut Stat) -> Result<(), String> {
    let mut g: GraphNamedNodes<u32> = GraphNamedNodes::new();
    let name = |k: usize| (k * 7 + 3) % 1_000_003 * if k % 2 == 0 { 1 } else { 65536 };
    st.states += 1;
    st.traces += 1;
    for k in 0..n {
        st.transitions += 3;
        match g.add_node(name(k), k as u32) {
            Ok(i) if i == k => {}
            r => return Err(format!("node {k} under the name {} gave {r:?}", name(k))),
        }
        if g.add_node(name(k / 2), 0).is_ok() {
            return Err(format!("the name {} was taken twice", name(k / 2)));
        }
        if k > 0 {
            g.add_edge(name(k), name(k - 1)).map_err(|e| e.to_string())?;
        }
        g.add_edge(name(k), name(k)).map_err(|e| e.to_string())?;
        g.add_edge(name(k), name(0)).map_err(|e| e.to_string())?;
    }
    g.get_node_mut(name(n / 2)).map_err(|e| e.to_string())?.data += 1_000_000;
    g.get_node_mut_by_index(n - 1).map_err(|e| e.to_string())?.data += 1_000_000;
    for k in 0..n {
        let w = k as u32 + if k == n / 2 { 1_000_000 } else { 0 } + if k == n - 1 { 1_000_000 } else { 0 };
        let s: Vec<usize> = g.successor_indices(name(k)).map_err(|e| e.to_string())?.take(9).collect();
        let mut ws = vec![0, k];
        if k > 0 {
            ws.push(k - 1);
        }
        if g.get_node(name(k)).map(|x| x.data).ok() != Some(w) || g.get_node_by_index(k).map(|x| x.data).ok() != Some(w) || s != ws {
            return Err(format!("node {k} under the name {} of {n}: wrong data or successors {s:?}", name(k)));
        }
    }
    if g.get_node_by_index(n).is_ok() || g.get_node(name(n)).is_ok() {
        return Err("more nodes than were added".into());
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![
            graph_family("edges", if q { 8 } else { 9 }, &[0, 1, 3], 2, false, 2),
            graph_family("three-nodes", if q { 7 } else { 8 }, &[0, 2], 3, false, 2),
            graph_family("merge", if q { 6 } else { 7 }, &[1], 2, true, 3),
        ];
        // one node, many ids in every order
        let n = if q { 7 } else { 9 };
        families.push(family(
            "orders",
            &format!("edges from one node in every order of {n} ids (gaps and repetitions), with an automatically numbered edge after every k of them"),
            (1..=n as u64).product::<u64>() * (n as u64 + 1),
            move |i, st| {
                let auto = (i % (n as u64 + 1)) as usize;
                let mut i = i / (n as u64 + 1);
                let mut left: Vec<usize> = (0..n).collect();
                let ids = [0usize, 1, 2, 4, 7, 8, 12, 100];
                let mut ops = vec![Op::Node, Op::Node];
                let mut k = 0;
                while !left.is_empty() {
                    if k == auto {
                        ops.push(Op::Edge(0, 1));
                        ops.push(Op::Edge(0, 0));
                    }
                    let j = left.remove((i % left.len() as u64) as usize);
                    i /= left.len() as u64 + 1;
                    ops.push(Op::EdgeId(0, k % 2, ids[j]));
                    ops.push(Op::EdgeId(0, (k + 1) % 2, ids[j]));
                    k += 1;
                }
                let (mut g, mut m) = (Graph::new(), Model::default());
                st.states += 1;
                st.traces += 1;
                for o in ops.iter() {
                    apply(&mut g, &mut m, *o)?;
                    st.transitions += 1;
                    check(&g, &m, 1).map_err(|e| format!("{e}\nafter a prefix of {ops:?}"))?;
                }
                Ok(())
            },
        ));
        let mut all: Vec<NOp> = vec![];
        for a in 0..3 {
            all.push(NOp::Node(a));
            for b in 0..3 {
                all.push(NOp::Edge(a, b));
            }
            all.push(NOp::Write(a));
            all.push(NOp::WriteIx(a));
        }
        let k = all.len() as u64;
        let d = if q { 5 } else { 6 };
        families.push(family(
            "named",
            &format!("all histories of {d} operations on the named graph out of {k} (register, connect, write by name and by index, known or not), every lookup after every step"),
            k.pow(d),
            move |mut i, st| {
                let mut ops = vec![];
                for _ in 0..d {
                    ops.push(all[(i % k) as usize]);
                    i /= k;
                }
                st.states += 1;
                st.traces += 1;
                st.transitions += d as u64;
                named(&ops).map_err(|e| format!("{e}\nin {ops:?}"))
            },
        ));
        families.push(family("empty", "lookups on empty graphs", 1, |_, st| {
            st.states += 1;
            st.traces += 1;
            named(&[NOp::WriteIx(0)])?;
            named(&[NOp::Edge(0, 0)])?;
            named(&[NOp::Write(0)])
        }));
        families.push(family(
            "huge",
            "n edges out of one node, a ring of n nodes with chords, n explicit ids with some between and far above, a star of n merged with a chain of n, n names; n around 128, 256, 4096, 32768, 65536 and 70000",
            hx::huge::SIZES.len() as u64 * 5,
            |i, st| {
                let (kind, n) = (i % 5, hx::huge::SIZES[(i / 5) as usize]);
                catch(|| if kind == 4 { big_named(n, st) } else { big(kind, n, st) })
                    .unwrap_or_else(|p| Err(p.to_string()))
                    .map_err(|e| format!("{e}\nin large graph {kind}, {n}"))
            },
        ));
        Check {
            id: "C16",
            technique: "exhaustive exploration of all operation histories up to a depth against a reference graph",
            assumptions: vec!["node indices given to the plain graph are valid (its documented precondition)".into()],
            families,
        }
    })
}
