//! C19: both stack machines execute every instruction by its definition.
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::simple_stack_vm as simple;
use henriks_parsing_project::vms::stack_vm as stack;
use henriks_parsing_project::vms::VM;
use hx::run::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum I {
    Add,
    RegAddConst(i128),
    Sub,
    Digit,
    PopToReg,
    PopToReg2,
    PopDiscard,
    PushConst(i128),
    PushFromTree,
    PushReg,
    PushReg2,
    PrintReg,
    PrintReg2,
    PrintError,
    Pow(usize),
}
use I::*;
#[derive(Clone, Debug, PartialEq)]
struct S {
    stack: Vec<i128>,
    reg: i128,
    reg2: i128,
    error: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Simple,
    Stack,
}
impl M {
    fn min(self) -> i128 {
        if self == M::Simple { 0 } else { isize::MIN as i128 }
    }
    fn max(self) -> i128 {
        if self == M::Simple { usize::MAX as i128 } else { isize::MAX as i128 }
    }
    fn fits(self, x: i128) -> bool {
        x >= self.min() && x <= self.max()
    }
}
/// What the current node looks like: no child, or a first child with this text (and more behind it).
type Child<'a> = Option<&'a str>;

/// All states an instruction may lead to.
fn step(m: M, s: &S, i: I, child: Child) -> Vec<S> {
    let mut n = s.clone();
    let err = |n: &S, e: usize| S { error: e, ..n.clone() };
    // a result that does not fit: any non-zero error
    let unfit = |n: &S| -> Vec<S> { (1..=9).map(|e| err(n, e)).collect() };
    let push = |n: &S, v: i128| -> Vec<S> {
        if m.fits(v) {
            let mut x = n.clone();
            x.stack.push(v);
            vec![x]
        } else {
            unfit(n)
        }
    };
    match i {
        Digit | PrintReg | PrintReg2 | PrintError => vec![n],
        PushConst(c) => push(&n, c),
        PushReg => push(&n, s.reg),
        PushReg2 => push(&n, s.reg2),
        RegAddConst(c) => {
            if m.fits(s.reg + c) {
                n.reg += c;
                vec![n]
            } else {
                unfit(&n)
            }
        }
        PushFromTree => match child {
            None => vec![err(&n, 1)],
            Some(t) => {
                // whether a number may be written with a plus is left open
                if let Some(d) = t.strip_prefix('+').filter(|d| d.starts_with(|c: char| c.is_ascii_digit())) {
                    return [step(m, s, i, Some(d)), vec![err(&n, 2)]].concat();
                }
                let neg = t.starts_with('-');
                let d = t.trim_start_matches('-');
                let number = !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) && t.len() - d.len() <= neg as usize;
                if !number || (neg && m == M::Simple) {
                    return vec![err(&n, 2)];
                }
                if d.trim_start_matches('0').len() > 30 {
                    return unfit(&n);
                }
                let v: i128 = d.parse().unwrap();
                push(&n, if neg { -v } else { v })
            }
        },
        Add | Sub | PopToReg | PopToReg2 | PopDiscard | Pow(_) => {
            let Some(v) = n.stack.pop() else { return vec![err(&n, 1)] };
            match i {
                Add => push(&n, v + s.reg),
                Sub => push(&n, v - s.reg),
                PopToReg => {
                    n.reg = v;
                    vec![n]
                }
                PopToReg2 => {
                    n.reg2 = v;
                    vec![n]
                }
                PopDiscard => vec![n],
                Pow(b) => {
                    let b = b as i128;
                    let k = s.reg;
                    if k < 0 {
                        // a power of one is one; otherwise not a whole number or not defined, except
                        // where the product is whole, which may be refused
                        let mut out = unfit(&n);
                        if b == 1 {
                            return push(&n, v + s.reg2);
                        }
                        if b > 1 {
                            let mut x = v;
                            let mut j = k;
                            while j < 0 && x != 0 && x % b == 0 {
                                x /= b;
                                j += 1;
                            }
                            if j == 0 || x == 0 {
                                out.extend(push(&n, x + s.reg2));
                            }
                        }
                        return out;
                    }
                    // saturating: None when it leaves i128 for sure
                    let mut p: Option<i128> = Some(1);
                    if b > 1 {
                        let mut j = 0;
                        while j < k && p.is_some() {
                            p = p.unwrap().checked_mul(b);
                            j += 1;
                        }
                    } else if b == 0 && k > 0 {
                        p = Some(0);
                    }
                    let prod = if v == 0 { Some(0) } else { p.and_then(|p| v.checked_mul(p)) };
                    match prod {
                        None => unfit(&n),
                        Some(x) => {
                            let Some(sum) = x.checked_add(s.reg2) else { return unfit(&n) };
                            let mut out = push(&n, sum);
                            if v != 0 && (!m.fits(p.unwrap_or(i128::MAX)) || !m.fits(x)) {
                                out.extend(unfit(&n));
                            }
                            out
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
    }
}

/// The trees a node can be in: the root, behind a sibling with text, with a text of its own (as the
/// root and below one with text), with an earlier first child removed, and with its child in a place
/// that was used before.
const PLACES: usize = 6;
fn tree(child: Child, at: usize) -> (Tree<String>, NodeId) {
    let mut t = Tree::new();
    let own = if at == 2 || at == 3 { "66" } else { "" };
    let node = match at {
        0 | 2 => t.add_node(own.into(), None).unwrap(),
        _ => {
            let root = t.add_node(if at == 3 { "55".into() } else { String::new() }, None).unwrap();
            let s = t.add_node("77".into(), Some(root)).unwrap();
            t.add_node("44".into(), Some(s)).unwrap();
            t.add_node(own.into(), Some(root)).unwrap()
        }
    };
    let before = (at == 4).then(|| t.add_node("33".into(), Some(node)).unwrap());
    if at == 5 {
        let a = t.add_node("22".into(), Some(node)).unwrap();
        t.add_node("11".into(), Some(a)).unwrap();
        t.remove_branch(a).unwrap();
    }
    if let Some(c) = child {
        let k = t.add_node(c.into(), Some(node)).unwrap();
        t.add_node("88".into(), Some(node)).unwrap();
        t.add_node("99".into(), Some(k)).unwrap();
    }
    if let Some(b) = before {
        t.remove_branch(b).unwrap();
    }
    (t, node)
}
macro_rules! machine {
    ($f:ident, $m:ident, $vm:expr, $vmt:ty, $int:ty, $mk:expr) => {
        fn $f(s: &S, is: &[I], child: Child, at: usize) -> S {
            let (mut t, n) = tree(child, at);
            let mut st = <$vmt as VM>::create_new_state();
            st.stack = s.stack.iter().map(|x| *x as $int).collect();
            st.reg = s.reg as $int;
            st.reg2 = s.reg2 as $int;
            st.error = s.error;
            for i in is {
                use $m::Instruction as J;
                let j = match *i {
                    Add => J::Add,
                    RegAddConst(c) => J::RegAddConst(c as $int),
                    Sub => J::Sub,
                    Digit => J::Digit,
                    PopToReg => J::PopToReg,
                    PopToReg2 => J::PopToReg2,
                    PopDiscard => J::PopDiscard,
                    PushConst(c) => J::PushConst(c as $int),
                    PushFromTree => J::PushFromTree,
                    PushReg => J::PushReg,
                    PushReg2 => J::PushReg2,
                    PrintReg => J::PrintReg,
                    PrintReg2 => J::PrintReg2,
                    PrintError => J::PrintError,
                    Pow(b) => J::Pow(b),
                };
                $vm.execute_instruction(&mut t, n, &j, &mut st);
            }
            S { stack: st.stack.iter().map(|x| *x as i128).collect(), reg: st.reg as i128, reg2: st.reg2 as i128, error: st.error }
        }
    };
}
machine!(run_simple, simple, simple::SimpleStackVm {}, simple::SimpleStackVm, usize, 0);
machine!(run_stack, stack, stack::StackVm {}, stack::StackVm, isize, 0);

fn decide(m: M, s: &S, i: I, child: Child, at: usize) -> Result<(), String> {
    let want = step(m, s, i, child);
    let r = catch(|| if m == M::Simple { run_simple(s, &[i], child, at) } else { run_stack(s, &[i], child, at) });
    match r {
        Err(p) => Err(format!("{m:?} machine: {i:?} in {s:?}, child {child:?}: {p}")),
        Ok(g) if !want.contains(&g) => Err(format!("{m:?} machine: {i:?} in {s:?}, child {child:?}\ngives {g:?}\nexpected {}{:?}", if want.len() > 1 { "one of " } else { "" }, want)),
        Ok(_) => Ok(()),
    }
}
const CHILDREN: &[Child] = &[
    None, Some("5"), Some("0"), Some("007"), Some(""), Some("x"), Some("-3"), Some("-"), Some("5 "), Some(" 5"), Some("1.5"), Some("٣"), Some("--5"), Some("5a"),
    Some("9223372036854775807"), Some("9223372036854775808"), Some("-9223372036854775808"), Some("-9223372036854775809"),
    Some("18446744073709551615"), Some("18446744073709551616"), Some("99999999999999999999999999999999999999999999"),
];
fn values(m: M, q: bool) -> Vec<i128> {
    let mx = m.max();
    let mut v = vec![0, 1, 2, 9, 10, 63, 64, 1 << 31, 1 << 32, (1 << 32) + 1, mx / 10, mx / 10 + 1, mx / 2, mx / 2 + 1, mx - 1, mx, 3037000499, 4294967296];
    if m == M::Stack {
        v.extend([-1, -2, -10, -(1i128 << 32), m.min() / 2, m.min() + 1, m.min()]);
    }
    if !q {
        v.extend([3, 7, 18, 19, 20, 62, 65, 100, 999999937, 10i128.pow(9), 10i128.pow(18)]);
        if m == M::Stack {
            v.extend([-3, -7, -63, -64, -(10i128.pow(18))]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn instructions(m: M) -> Vec<I> {
    let mut v = vec![Add, Sub, Digit, PopToReg, PopToReg2, PopDiscard, PushFromTree, PushReg, PushReg2, PrintReg, PrintReg2, PrintError];
    for c in [0, 1, 2, 10, m.max() - 1, m.max()] {
        v.push(RegAddConst(c));
        v.push(PushConst(c));
    }
    if m == M::Stack {
        for c in [-1, -10, m.min()] {
            v.push(RegAddConst(c));
            v.push(PushConst(c));
        }
    }
    for b in [0, 1, 2, 3, 10, 16, 4294967296, i64::MAX as usize, i64::MAX as usize + 1, usize::MAX] {
        v.push(Pow(b));
    }
    v
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        for m in [M::Simple, M::Stack] {
            let vs = values(m, q);
            let is = instructions(m);
            let n = vs.len() as u64;
            // stacks: empty, one value, two values (the lower one of few)
            let low: Vec<i128> = vec![0, 5, m.max(), m.min()];
            let mut stacks: Vec<Vec<i128>> = vec![vec![]];
            for v in &vs {
                stacks.push(vec![*v]);
                for l in &low {
                    stacks.push(vec![*l, *v]);
                }
                stacks.push(vec![1, 2, 3, *v]);
            }
            let total = n * n * stacks.len() as u64;
            families.push(family(
                &format!("steps-{m:?}"),
                &format!("one step of each of {} instructions (all kinds, constants at the limits) from every state with registers out of {n} values, {} stacks and error code 0..3; tree texts: {} kinds, in {PLACES} kinds of tree", is.len(), stacks.len(), CHILDREN.len()),
                total,
                move |i, st| {
                    let s0 = &stacks[(i / (n * n)) as usize];
                    let (reg, reg2) = (vs[(i / n % n) as usize], vs[(i % n) as usize]);
                    for error in 0..4usize {
                        let s = S { stack: s0.clone(), reg, reg2, error };
                        st.states += 1;
                        for ins in &is {
                            // what other instructions than PushFromTree find in the tree is tried on one register pair
                            if *ins == PushFromTree || (reg == vs[0] && reg2 == vs[1]) {
                                for c in CHILDREN {
                                    for at in 0..if reg == vs[0] { PLACES } else { 2 } {
                                        decide(m, &s, *ins, *c, at)?;
                                        st.transitions += 1;
                                        st.traces += 1;
                                    }
                                }
                            } else {
                                decide(m, &s, *ins, None, 0)?;
                                st.transitions += 1;
                                st.traces += 1;
                            }
                        }
                    }
                    st.sample(|| format!("{m:?}: all instructions from stack {s0:?}, registers {reg} and {reg2}"));
                    Ok(())
                },
            ));
            // sequences from the initial state
            let seq = [
                Add, Sub, PopToReg, PopToReg2, PopDiscard, PushFromTree, PushReg, PushReg2, PrintReg, RegAddConst(1), PushConst(3), PushConst(m.max()), Pow(10), Pow(2), RegAddConst(m.max()),
            ];
            let k = seq.len() as u64;
            let len = if q { 6 } else { 7 };
            families.push(family(
                &format!("programs-{m:?}"),
                &format!("all programs of {len} instructions out of {k} from the initial state"),
                k.pow(len),
                move |mut i, st| {
                    let mut p = vec![];
                    for _ in 0..len {
                        p.push(seq[(i % k) as usize]);
                        i /= k;
                    }
                    let s0 = S { stack: vec![], reg: 0, reg2: 0, error: 0 };
                    let mut can = vec![s0.clone()];
                    for ins in &p {
                        let mut next: Vec<S> = vec![];
                        for s in &can {
                            for x in step(m, s, *ins, Some("7")) {
                                if !next.contains(&x) {
                                    next.push(x);
                                }
                            }
                        }
                        can = next;
                    }
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += len as u64;
                    match catch(|| if m == M::Simple { run_simple(&s0, &p, Some("7"), 0) } else { run_stack(&s0, &p, Some("7"), 0) }) {
                        Err(e) => Err(format!("{m:?} machine, program {p:?}: {e}")),
                        Ok(g) if !can.contains(&g) => Err(format!("{m:?} machine, program {p:?}\ngives {g:?}\nexpected {can:?}")),
                        Ok(_) => Ok(()),
                    }
                },
            ));
        }
        let one = |m: M, s: &S, p: &[I], want: &S| -> Result<(), String> {
            let g = catch(|| if m == M::Simple { run_simple(s, p, Some("7"), 0) } else { run_stack(s, p, Some("7"), 0) }).map_err(|e| e.to_string())?;
            if g != *want {
                let k = g.stack.iter().zip(&want.stack).take_while(|x| x.0 == x.1).count();
                return Err(format!(
                    "a stack of {} values, expected {}, the same up to {k}; registers {} {} expected {} {}; error {} expected {}",
                    g.stack.len(), want.stack.len(), g.reg, g.reg2, want.reg, want.reg2, g.error, want.error
                ));
            }
            Ok(())
        };
        families.push(family(
            "huge",
            "programs of n instructions: n pushes, all popped again into a sum or one by one, n pushes from the tree, n additions to a register; stacks of n values under one step of each kind; n around 128, 256, 4096, 32768, 65536 and 70000",
            hx::huge::SIZES.len() as u64 * 10,
            move |i, st| {
                let n = hx::huge::SIZES[(i / 10) as usize];
                let m = if i % 2 == 0 { M::Simple } else { M::Stack };
                let kind = i % 10 / 2;
                let s0 = S { stack: vec![], reg: 0, reg2: 0, error: 0 };
                let mut p: Vec<I> = vec![];
                let mut want = s0.clone();
                st.states += 1;
                st.traces += 1;
                st.transitions += n as u64;
                let r = match kind {
                    0 => {
                        p.extend((0..n).map(|k| PushConst(k as i128)));
                        want.stack = (0..n as i128).collect();
                        one(m, &s0, &p, &want)
                    }
                    1 => {
                        // a sum over the whole stack
                        p.extend((0..n).map(|k| PushConst(k as i128)));
                        for _ in 0..n {
                            p.extend([Add, PopToReg]);
                        }
                        p.push(PushReg);
                        want.reg = (0..n as i128).sum();
                        want.stack = vec![want.reg];
                        one(m, &s0, &p, &want)
                    }
                    2 => {
                        for k in 0..n {
                            p.extend([PushFromTree, PopToReg2, RegAddConst(k as i128 % 3), PushReg2]);
                            want.reg += k as i128 % 3;
                        }
                        want.stack = vec![7; n];
                        want.reg2 = 7;
                        one(m, &s0, &p, &want)
                    }
                    3 => {
                        // down to empty, and beyond
                        let s = S { stack: (0..n as i128).map(|k| k * 5).collect(), ..s0.clone() };
                        p.extend(vec![PopDiscard; n - 1]);
                        want.stack = vec![0];
                        one(m, &s, &p, &want)?;
                        p.extend([PopDiscard, PopDiscard, PushConst(4)]);
                        want.stack = vec![4];
                        want.error = 1;
                        one(m, &s, &p, &want)
                    }
                    _ => {
                        let s = S { stack: (0..n as i128).map(|k| k % 11).collect(), reg: 3, reg2: 2, error: 0 };
                        for ins in instructions(m) {
                            for c in [None, Some("7"), Some("x")] {
                                decide(m, &s, ins, c, 0).map_err(|e| e.chars().take(1000).collect::<String>())?;
                                st.transitions += 1;
                            }
                        }
                        Ok(())
                    }
                };
                r.map_err(|e| format!("{e}\n{m:?} machine, kind {kind}, n={n}"))
            },
        ));
        families.push(family(
            "every-character",
            "every Unicode character as, before, within and behind the text a number is read from, on both machines, from two states",
            hx::uni::CHUNKS,
            |i, st| {
                for c in hx::uni::chars_of(i) {
                    for text in [format!("{c}"), format!("{c}5"), format!("5{c}"), format!("1{c}2"), format!("-{c}"), format!("{c}{c}")] {

                        for m in [M::Simple, M::Stack] {
                            for s in [S { stack: vec![], reg: 0, reg2: 0, error: 0 }, S { stack: vec![3], reg: 4, reg2: 5, error: 0 }] {
                                decide(m, &s, PushFromTree, Some(&text), 0)?;
                                st.states += 1;
                                st.traces += 1;
                                st.transitions += 1;
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
        Check {
            id: "C19",
            technique: "exhaustive exploration of machine states x instructions, and of programs from the initial state, against wide-integer semantics",
            assumptions: vec![
                "64-bit words".into(),
                "which non-zero error an unfit result sets, and whether a power that does not fit is one if the sum would, is left open".into(),
            ],
            families,
        }
    })
}
