//! Virtual machines used by the checks, and reading trees back through the public interface.
use crate::gram::{DTree, Gram};
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::sync::Mutex;

/// A tree as read through get_node/get_children.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct LTree {
    pub data: String,
    pub kids: Vec<LTree>,
}
impl LTree {
    pub fn of(d: &DTree) -> LTree {
        match d {
            DTree::Leaf(t) => LTree { data: t.clone(), kids: vec![] },
            DTree::Node(_, k) => LTree { data: String::new(), kids: k.iter().map(LTree::of).collect() },
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn show(&self) -> String {
        if self.kids.is_empty() {
            format!("{:?}", self.data)
        } else {
            format!(
                "{}({})",
                if self.data.is_empty() { String::new() } else { format!("{:?}", self.data) },
                self.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ")
            )
        }
    }
}
pub fn root() -> NodeId {
    NodeId { node_ptr: 0, node_pk: 0 }
}
pub fn read_tree(t: &Tree<String>, id: NodeId) -> Result<LTree, String> {
    fn go(t: &Tree<String>, id: NodeId, fuel: &mut usize) -> Result<LTree, String> {
        if *fuel == 0 {
            return Err("tree does not end".into());
        }
        *fuel -= 1;
        let n = t.get_node(id).map_err(|e| format!("get_node({id}) failed: {e}"))?;
        let mut kids = vec![];
        for c in t.get_children(id) {
            kids.push(go(t, c, fuel)?);
        }
        Ok(LTree { data: n.data.clone(), kids })
    }
    let mut fuel = 1_000_000;
    go(t, id, &mut fuel)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Event {
    pub rule: String,
    /// position of the instruction in the rule's list
    pub k: usize,
    pub subtree: LTree,
    /// how many nodes the tree below the root had at that moment
    pub path: Vec<usize>,
}

/// Logs what is executed. The section's text is the number of instructions to make.
#[derive(Default)]
pub struct TraceVm {
    pub offered: Mutex<Vec<(String, String)>>,
}
#[derive(Clone)]
pub struct TraceInst {
    pub rule: String,
    pub k: usize,
}
impl VM for TraceVm {
    type Tstate = Vec<Event>;
    type Tinstrution = TraceInst;
    fn parse_instructions<'a, T>(&'a self, name: &str, p: &mut ParseProcess<T>) -> Result<Vec<TraceInst>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let text: String = p.by_ref().collect();
        let n: usize = text.trim().parse().unwrap_or(1);
        self.offered.lock().unwrap().push((name.to_string(), text));
        Ok((0..n).map(|k| TraceInst { rule: name.to_string(), k }).collect())
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, node: NodeId, i: &TraceInst, state: &mut Vec<Event>) {
        let subtree = read_tree(tree, node).unwrap_or(LTree { data: "<unreadable>".into(), kids: vec![] });
        let path = find_path(tree, root(), node).unwrap_or(vec![usize::MAX]);
        state.push(Event { rule: i.rule.clone(), k: i.k, subtree, path });
    }
    fn create_new_state() -> Vec<Event> {
        vec![]
    }
}
/// Path of child positions from one node to another.
pub fn find_path(t: &Tree<String>, from: NodeId, to: NodeId) -> Option<Vec<usize>> {
    if from == to {
        return Some(vec![]);
    }
    for (k, c) in t.get_children(from).into_iter().enumerate() {
        if let Some(mut p) = find_path(t, c, to) {
            p.insert(0, k);
            return Some(p);
        }
    }
    None
}

pub fn describe(g: &Gram, script: &[char]) -> String {
    let s: String = script.iter().collect();
    format!("grammar:\n{}start rule: {}\nscript: {:?}", g.render(), g.nts[g.start], s)
}

/// Records which rules' nodes are finished: rule, number of children, text of the first child.
#[derive(Default)]
pub struct DoneVm;
impl VM for DoneVm {
    type Tstate = Vec<(String, usize, String)>;
    type Tinstrution = String;
    fn parse_instructions<'a, T>(&'a self, name: &str, p: &mut ParseProcess<T>) -> Result<Vec<String>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        for _ in p.by_ref() {}
        Ok(vec![name.to_string()])
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, node: NodeId, i: &String, state: &mut Self::Tstate) {
        let kids = tree.get_children(node);
        let first = kids.first().and_then(|k| tree.get_node(*k).ok()).map(|n| n.data.clone()).unwrap_or_default();
        state.push((i.clone(), kids.len(), first));
    }
    fn create_new_state() -> Self::Tstate {
        vec![]
    }
}
