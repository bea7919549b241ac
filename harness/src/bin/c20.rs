//! C20: the bundled calculator languages compute what their scripts say.
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::simple_stack_vm::{SimpleStackVm, SimpleStackVmState};
use henriks_parsing_project::vms::stack_vm::{StackVm, StackVmState};
use henriks_parsing_project::vms::VM;
use hx::run::*;
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Simple,
    Stack,
}
impl M {
    fn fits(self, x: i128) -> bool {
        if self == M::Simple { x >= 0 && x <= usize::MAX as i128 } else { x >= isize::MIN as i128 && x <= isize::MAX as i128 }
    }
    fn rules(self) -> &'static str {
        static A: OnceLock<String> = OnceLock::new();
        static B: OnceLock<String> = OnceLock::new();
        let read = |p: &str| std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"));
        if self == M::Simple {
            A.get_or_init(|| read("/repo/examples/simple_stack_based_math.txt"))
        } else {
            B.get_or_init(|| read("/repo/examples/stack_based_math.txt"))
        }
    }
}

/// Postfix evaluation: final stack and what is printed; None if an operator has no operands or a
/// value does not fit. The second part is what was printed before that.
fn eval(m: M, toks: &[&str]) -> (Option<Vec<i128>>, Vec<i128>) {
    let mut s: Vec<i128> = vec![];
    let mut out = vec![];
    for t in toks {
        match *t {
            "+" | "-" => {
                let (Some(b), Some(a)) = (s.pop(), s.pop()) else { return (None, out) };
                let r = if *t == "+" { a + b } else { a - b };
                if !m.fits(r) {
                    return (None, out);
                }
                s.push(r);
            }
            "print" => {
                let Some(a) = s.pop() else { return (None, out) };
                out.push(a);
            }
            n => {
                // any number of digits; more than 30 significant ones fit nowhere
                let d = n.trim_start_matches('0');
                if d.len() > 30 {
                    return (None, out);
                }
                let v: i128 = if d.is_empty() { 0 } else { d.parse().unwrap() };
                if !m.fits(v) {
                    return (None, out);
                }
                s.push(v);
            }
        }
    }
    (Some(s), out)
}

/// Runs scripts one after the other on one state; gives stack and error code.
fn run(m: M, scripts: &[String]) -> Result<(Vec<i128>, usize), String> {
    fn go<V: VM>(vm: &V, rules: &str, scripts: &[String], fin: impl Fn(V::Tstate) -> (Vec<i128>, usize)) -> Result<(Vec<i128>, usize), String> {
        let mut state = V::create_new_state();
        let mut p = Parser::new_from_text(rules, vm);
        for s in scripts {
            if let Err(e) = p.parse(s, &mut state) {
                return Err(format!("script {s:?} is refused: {e}"));
            }
        }
        Ok(fin(state))
    }
    let r = if m == M::Simple {
        catch(|| go(&SimpleStackVm {}, m.rules(), scripts, |s: SimpleStackVmState| (s.stack.iter().map(|x| *x as i128).collect(), s.error)))
    } else {
        catch(|| go(&StackVm {}, m.rules(), scripts, |s: StackVmState| (s.stack.iter().map(|x| *x as i128).collect(), s.error)))
    };
    r.map_err(|p| p.to_string())?
}

fn judge(m: M, toks: &[&str], split: &[usize], st: &mut Stat) -> Result<(), String> {
    let mut scripts = vec![];
    let mut from = 0;
    for &k in split.iter().chain([&toks.len()]) {
        if k > from {
            scripts.push(toks[from..k].join(" "));
        }
        from = k;
    }
    let (want, _) = eval(m, toks);
    let got = run(m, &scripts).map_err(|e| format!("{m:?} calculator, scripts {scripts:?}: {e}"))?;
    st.traces += 1;
    st.states += 1;
    st.transitions += toks.len() as u64;
    match want {
        Some(w) => {
            st.count("computed");
            if got != (w.clone(), 0) {
                return Err(format!("{m:?} calculator, scripts {scripts:?}: stack {:?} and error {}, expected stack {w:?} and error 0", got.0, got.1));
            }
        }
        None => {
            st.count("failed in the machine");
            if got.1 == 0 {
                return Err(format!("{m:?} calculator, scripts {scripts:?}: error code 0 and stack {:?}, but an operand is missing or a value does not fit", got.0));
            }
        }
    }
    Ok(())
}

/// `c20 --exec <machine>`: one script per line on stdin; what it prints, then a line "= ok|err|panic".
fn exec(m: M) {
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    for l in lines {
        let r = run(m, &[l]);
        println!(
            "= {}",
            match r {
                Ok((_, 0)) => "ok".to_string(),
                Ok(_) => "err".into(),
                Err(e) => e.replace('\n', " "),
            }
        );
    }
    std::io::stdout().flush().unwrap();
}

fn exec_all(m: M, scripts: &[String]) -> Vec<(Vec<String>, String)> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["--exec", if m == M::Simple { "simple" } else { "stack" }])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut inp = c.stdin.take().unwrap();
    let text = scripts.join("\n") + "\n";
    let w = std::thread::spawn(move || {
        let _ = inp.write_all(text.as_bytes());
    });
    let out = c.wait_with_output().unwrap();
    let _ = w.join();
    let mut res = vec![];
    let mut cur = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        if let Some(e) = l.strip_prefix("= ") {
            res.push((std::mem::take(&mut cur), e.to_string()));
        } else {
            cur.push(l.to_string());
        }
    }
    res
}

const TOKS: &[&str] = &["+", "-", "print", "0", "1", "7", "10", "305", "9223372036854775807", "18446744073709551615"];
fn nth(mut i: u64, len: u32) -> Vec<&'static str> {
    let k = TOKS.len() as u64;
    (0..len)
        .map(|_| {
            let t = TOKS[(i % k) as usize];
            i /= k;
            t
        })
        .collect()
}

fn numbers(q: bool) -> Vec<String> {
    let mut v: Vec<String> = (0..if q { 20_000 } else { 300_000u64 }).map(|x| x.to_string()).collect();
    let mut marks: Vec<u128> = vec![];
    for k in 0..26u32 {
        marks.push(10u128.pow(k));
    }
    for b in [31, 32, 53, 62, 63, 64, 65, 70] {
        marks.push(1u128 << b);
    }
    for d in 1..=9u128 {
        for l in 15..24usize {
            // d repeated
            marks.push(d.to_string().repeat(l).parse().unwrap());
        }
    }
    for m in marks {
        for o in -3i64..=3 {
            if m as i128 + o as i128 >= 0 {
                v.push((m as i128 + o as i128).to_string());
            }
        }
    }
    // every place and digit of the largest values changed
    for s in ["9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"] {
        for p in 0..s.len() {
            for d in '0'..='9' {
                let mut c: Vec<char> = s.chars().collect();
                c[p] = d;
                v.push(c.into_iter().collect());
            }
        }
    }
    // leading zeros
    let zs: Vec<usize> = (1..if q { 40 } else { 120 }).collect();
    for z in zs {
        for s in ["", "1", "5", "10", "909", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"] {
            v.push("0".repeat(z) + s);
        }
    }
    // every digit at every place
    for l in 2..=20usize {
        for p in 0..l {
            for d in '1'..='9' {
                let mut c = vec!['0'; l];
                c[p] = d;
                v.push(c.iter().collect());
                c[0] = '1';
                v.push(c.iter().collect());
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--exec" {
        return exec(if a[2] == "simple" { M::Simple } else { M::Stack });
    }
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        for m in [M::Simple, M::Stack] {
            let k = TOKS.len() as u64;
            for len in 1..=if q { 5u32 } else { 6 } {
                families.push(family(
                    &format!("scripts-{m:?}-{len}"),
                    &format!("all scripts of {len} tokens out of {TOKS:?}"),
                    k.pow(len),
                    move |i, st| {
                        let t = nth(i, len);
                        st.sample(|| format!("{m:?}: {:?} -> {:?}", t.join(" "), eval(m, &t).0));
                        judge(m, &t, &[], st)
                    },
                ));
            }
            // longer scripts over few tokens
            let few = ["+", "-", "print", "3", "12"];
            let len = if q { 8u32 } else { 10 };
            families.push(family(
                &format!("long-{m:?}"),
                &format!("all scripts of {len} tokens out of {few:?}"),
                5u64.pow(len),
                move |mut i, st| {
                    let mut t = vec![];
                    for _ in 0..len {
                        t.push(few[(i % 5) as usize]);
                        i /= 5;
                    }
                    judge(m, &t, &[], st)
                },
            ));
            let slen = if q { 4u32 } else { 5 };
            families.push(family(
                &format!("split-{m:?}"),
                &format!("all scripts of {slen} tokens, cut in every way into scripts parsed one after the other on one state"),
                k.pow(slen),
                move |i, st| {
                    let t = nth(i, slen);
                    for cut in 1..1u32 << (slen - 1) {
                        let split: Vec<usize> = (1..slen as usize).filter(|x| cut >> (x - 1) & 1 == 1).collect();
                        judge(m, &t, &split, st)?;
                    }
                    Ok(())
                },
            ));
            // long scripts, deep stacks, long histories of one state
            let sizes: Vec<usize> = (1..=130).chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049]).chain(if q { vec![] } else { (131..255).collect() }).collect();
            let far = [4096usize, 10_001, 65_535, 65_536, 65_537, 70_000];
            let (a, b) = (sizes.len() as u64, far.len() as u64);
            let shapes = 14;
            families.push(family(
                &format!("sizes-{m:?}"),
                &format!("{shapes} kinds of scripts made of n numbers, operators and prints (all numbers first, operators in between, one operand or one value too many at the end): n of {a} sizes up to 2049 in one script, in two, and token by token on one state; n of {far:?} in pieces of 50 tokens on one state"),
                (a * 3 + b) * shapes,
                move |i, st| {
                    let (shape, i) = (i % shapes, i / shapes);
                    let (n, way) = if i < 3 * a { (sizes[(i % a) as usize], i / a) } else { (far[(i - 3 * a) as usize], 3) };
                    let mut t: Vec<&str> = vec![];
                    let some = ["3", "12", "0", "7"];
                    let num = |k: usize| some[k % 4];
                    match shape {
                        0 => t.extend((0..n).map(num)),
                        1..=3 => {
                            t.extend((0..n).map(num));
                            let extra = [0, 1, 0][shape as usize - 1];
                            t.extend(std::iter::repeat("+").take((n + extra).saturating_sub(1)));
                            if shape == 3 {
                                t.push("print");
                            }
                        }
                        4 | 5 => {
                            t.push("0");
                            for k in 0..n {
                                t.extend([num(k), "+"]);
                            }
                            if shape == 5 {
                                t.extend(["print", "+"]);
                            }
                        }
                        6 => {
                            t.extend((0..n).map(num));
                            t.extend(std::iter::repeat("print").take(n));
                        }
                        7 => {
                            t.extend((0..n).map(num));
                            t.extend(std::iter::repeat("print").take(n + 1));
                        }
                        8 => {
                            for k in 0..n {
                                t.extend([num(k), "print"]);
                            }
                        }
                        9 => {
                            t.push("9223372036854000000");
                            for k in 0..n {
                                t.extend([num(k), "-"]);
                            }
                        }
                        10 => {
                            // a value kept at the bottom
                            t.push("305");
                            for k in 0..n {
                                t.extend([num(k), "5", "+", "print"]);
                            }
                            t.extend(["1", "+"]);
                        }
                        11 => {
                            t.extend(std::iter::repeat("9223372036854775807").take(n));
                            t.push("+");
                        }
                        12 => {
                            // an operator without operands, then much that is right
                            t.push("+");
                            for k in 0..n {
                                t.extend([num(k), "1", "+"]);
                            }
                        }
                        _ => {
                            // a value that does not fit, then much that is right
                            t.extend(["99999999999999999999", "1", "+"]);
                            for k in 0..n {
                                t.extend([num(k), "print"]);
                            }
                        }
                    }
                    if way < 3 && t.len() > 4200 {
                        t.truncate(4200);
                    }
                    let split: Vec<usize> = match way {
                        0 => vec![],
                        1 => vec![t.len() / 2],
                        2 => (1..t.len()).collect(),
                        _ => (1..=t.len() / 50).map(|k| k * 50).collect(),
                    };
                    judge(m, &t, &split, st).map_err(|e| format!("{}...\n(kind {shape}, n={n}, {} tokens)", e.chars().take(600).collect::<String>(), t.len()))
                },
            ));
            let ns = numbers(q);
            families.push(family(
                &format!("numbers-{m:?}"),
                &format!("{} decimal numbers: all small ones, around every power of ten and the limits, every digit at every place, leading zeros; alone, added to 1 and subtracted from it", ns.len()),
                ns.len() as u64,
                move |i, st| {
                    let n = ns[i as usize].as_str();
                    judge(m, &[n], &[], st)?;
                    judge(m, &["1", n, "+"], &[], st)?;
                    judge(m, &[n, "1", "-"], &[], st)?;
                    judge(m, &["1", n, "-"], &[], st)
                },
            ));
            let plen = if q { 5u32 } else { 6 };
            let total = k.pow(plen);
            let batch = 500;
            families.push(family(
                &format!("printed-{m:?}"),
                &format!("the lines printed by all scripts of {plen} tokens that print"),
                total.div_ceil(batch),
                move |i, st| {
                    let mut toks = vec![];
                    for j in i * batch..((i + 1) * batch).min(total) {
                        let t = nth(j, plen);
                        if t.contains(&"print") {
                            toks.push(t);
                        }
                    }
                    let scripts: Vec<String> = toks.iter().map(|t| t.join(" ")).collect();
                    if scripts.is_empty() {
                        return Ok(());
                    }
                    let got = exec_all(m, &scripts);
                    for (j, t) in toks.iter().enumerate() {
                        let (want, out) = eval(m, t);
                        let want_out: Vec<String> = out.iter().map(|x| x.to_string()).collect();
                        let Some((lines, end)) = got.get(j) else {
                            return Err(format!("{m:?} calculator ended without finishing script {:?}", scripts[j]));
                        };
                        st.states += 1;
                        st.traces += 1;
                        st.transitions += plen as u64;
                        // what a failing script prints afterwards is left open
                        let ok = match want {
                            Some(_) => *lines == want_out && end == "ok",
                            None => lines.starts_with(&want_out) && end == "err",
                        };
                        if !ok {
                            return Err(format!("{m:?} calculator, script {:?}: printed {lines:?} and ended {end:?}, expected {want_out:?}{}", scripts[j], if want.is_none() { " and an error" } else { "" }));
                        }
                    }
                    Ok(())
                },
            ));
        }
        for m in [M::Simple, M::Stack] {
            let few = ["9223372036854775807 0 9223372036854775807 -", "0 9223372036854775807 -", "0 9223372036854775807 - 1 -", "0 1 -", "18446744073709551615", "1", "2", "0", "+", "-", "print", "9223372036854775806", "0 7 -"];
            let k = few.len() as u64;
            for len in 1..=if q { 5u32 } else { 6 } {
                families.push(family(
                    &format!("negatives-{m:?}-{len}"),
                    &format!("all scripts of {len} pieces out of {few:?}"),
                    k.pow(len),
                    move |mut i, st| {
                        let mut t: Vec<&str> = vec![];
                        for _ in 0..len {
                            t.extend(few[(i % k) as usize].split(' '));
                            i /= k;
                        }
                        judge(m, &t, &[], st)
                    },
                ));
            }
        }
        Check {
            id: "C20",
            technique: "exhaustive exploration of token scripts and number texts on both bundled calculators against big-integer postfix evaluation",
            assumptions: vec!["64-bit words".into(), "what the stack holds and what is printed after an error is left open".into()],
            families,
        }
    })
}
