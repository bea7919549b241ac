//! C13: a parser can be reused; parses do not influence each other.
use henriks_parsing_project::errors::ParserError::*;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::VM;
use hx::fam;
use hx::gram::*;
use hx::langs;
use hx::real;
use hx::run::*;
use hx::vmx::*;

/// Everything a parse shows: outcome, tree or error, actions.
type Out = (Result<LTree, String>, Vec<Event>);

fn parse<'a>(p: &mut Parser<'a, TraceVm>, s: &'a str, state: &mut Vec<Event>) -> Out {
    let before = state.len();
    let r = match catch(|| p.parse(s, state)) {
        Err(e) => Err(format!("{e}")),
        Ok(Ok(t)) => read_tree(&t, root()),
        Ok(Err(UnexpectedCharError { chr, pos, .. })) => Err(format!("unexpected {chr:?} at {pos}")),
        Ok(Err(EndOfCharsError { pos })) => Err(format!("end at {pos}")),
        Ok(Err(e)) => Err(format!("{e:?}")),
    };
    (r, state.split_off(before.min(state.len())))
}

/// Every sequence of up to `depth` of the scripts on one parser.
fn sequences(text: &str, scripts: &[String], depth: usize, st: &mut Stat) -> Result<(), String> {
    let vm = TraceVm::default();
    let build = || catch(|| Parser::new_from_text(text, &vm));
    if build().is_err() {
        st.skipped += 1;
        return Ok(());
    }
    // what each script does on a parser of its own
    let mut alone: Vec<Out> = vec![];
    for s in scripts {
        let mut p = build().map_err(|e| format!("the grammar is refused the second time: {e}\n{text}"))?;
        alone.push(parse(&mut p, s, &mut vec![]));
        st.count(if alone.last().unwrap().0.is_ok() { "accepted scripts" } else { "rejected scripts" });
    }
    let n = scripts.len();
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|s| (0..n).map(move |k| { let mut t = s.clone(); t.push(k); t })).collect();
        seqs.extend(last.iter().cloned());
    }
    for q in seqs.iter().filter(|q| q.len() == depth) {
        // one state for all of them
        let mut p = build().map_err(|e| format!("the grammar is refused later: {e}\n{text}"))?;
        let mut state = vec![];
        let mut total = vec![];
        for (k, &s) in q.iter().enumerate() {
            let out = parse(&mut p, &scripts[s], &mut state);
            if out != alone[s] {
                return Err(format!(
                    "after parsing {:?}, script {:?} gives\n  {:?}\nbut on a new parser\n  {:?}\n{text}",
                    q[..k].iter().map(|i| &scripts[*i]).collect::<Vec<_>>(),
                    scripts[s], out, alone[s]
                ));
            }
            state.extend(out.1.iter().cloned());
            total.extend(alone[s].1.iter().cloned());
            st.transitions += 1;
        }
        if state != total {
            return Err(format!("state was changed between the parses of {q:?} on {scripts:?}\n{text}"));
        }
        st.states += 1;
        st.traces += 1;
    }
    st.sample(|| format!("{} | all sequences of {depth} of {scripts:?}", text.trim().replace('\n', " ")));
    Ok(())
}

/// Scripts that end in different ways: different error places, different trees.
fn pick(g: &Gram, an: &An, maxlen: usize, want: usize) -> Vec<String> {
    let sg = fam::sigma(g);
    let mut seen: Vec<(bool, usize, usize)> = vec![];
    let mut out = vec![];
    for p in probes(g, an, &sg, maxlen, 4000, false) {
        let key = (p.accept, p.viable, p.s.len().saturating_sub(p.viable));
        if !seen.contains(&key) {
            seen.push(key);
            out.push((p.accept, p.s.iter().collect::<String>()));
        }
    }
    // sentences and non-sentences in turn
    let (mut a, mut r): (Vec<_>, Vec<_>) = out.into_iter().partition(|x| x.0);
    a.reverse();
    let mut res = vec![];
    while res.len() < want && !(a.is_empty() && r.is_empty()) {
        if let Some(x) = a.pop() {
            res.push(x.1);
        }
        if res.len() < want {
            if let Some(x) = r.pop() {
                res.push(x.1);
            }
        }
    }
    res
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let (depth, want) = if q { (4, 8) } else { (5, 8) };
        families.push(family(
            "realistic",
            &format!("realistic grammars with actions: all sequences of {depth} out of {} scripts", want + 2),
            real::real().len() as u64,
            move |i, st| {
                let r = &real::real()[i as usize];
                let (g, an) = real::with_gram(r);
                let mut scripts: Vec<String> = r.sentences.iter().take(3).cloned().collect();
                for x in pick(&g, &an, 3, want) {
                    if !scripts.contains(&x) && scripts.len() < want {
                        scripts.push(x);
                    }
                }
                // one cut off in the middle, one with a foreign character behind
                let s = r.sentences.iter().max_by_key(|s| s.len()).unwrap();
                scripts.push(s.chars().take(s.chars().count() * 2 / 3).collect());
                scripts.push(format!("{s}ø"));
                let scripts: Vec<String> = scripts.into_iter().collect();
                sequences(&r.text, &scripts, depth, st)
            },
        ));
        let mut fs = vec![fam::two(5), fam::one(tier, 5), fam::words(tier, 5), fam::chain(5)];
        if !q {
            fs.push(fam::three(Tier::Quick, 5));
        }
        for f in fs {
            let mk = f.make.clone();
            let name = f.name;
            let (d, w) = if q { (if name == "words" { 2 } else { 3 }, 5) } else { (if name == "three" || name == "words" { 3 } else { 4 }, 6) };
            families.push(family(
                f.name,
                &format!("{}: every LL(1) grammar with actions, all sequences of {d} out of {w} scripts with different outcomes", f.bound),
                f.n,
                move |i, st| {
                    let mut g = mk(i);
                    let an = analyse(&g);
                    if !an.ll1() {
                        st.skipped += 1;
                        return Ok(());
                    }
                    langs::put_acts(&mut g, i);
                    sequences(&g.render(), &pick(&g, &an, 5, w), d, st)
                },
            ));
        }
        // long histories of one script
        families.push(family(
            "repeat",
            "realistic grammars: every sentence 200 times in a row on one parser, alternating with a rejected script",
            real::real().len() as u64,
            |i, st| {
                let r = &real::real()[i as usize];
                for s in &r.sentences {
                    let vm = TraceVm::default();
                    let bad = format!("{s}ø");
                    let mut p = Parser::new_from_text(&r.text, &vm);
                    let a = parse(&mut p, s, &mut vec![]);
                    let b = parse(&mut p, &bad, &mut vec![]);
                    for k in 0..200 {
                        let (x, y) = (parse(&mut p, s, &mut vec![]), parse(&mut p, &bad, &mut vec![]));
                        st.transitions += 2;
                        st.traces += 2;
                        if x != a || y != b {
                            return Err(format!("parse number {k} of {s:?} differs from the first\n{}", r.text));
                        }
                    }
                    st.states += 1;
                }
                Ok(())
            },
        ));
        // states of the bundled VMs carried over
        families.push(family(
            "states",
            "counting VM and stack machine with the calculator grammar: all splits of a script into consecutive parses of sentences on one state act like the actions in sequence",
            1,
            |_, st| {
                let text = "start -> n start | #; n -> \"1\" {}; ";
                let vm = CountingVm {};
                let mut p = Parser::new_from_text(text, &vm);
                for a in 0..6usize {
                    for b in 0..6usize {
                        for c in 0..6usize {
                            let mut s = CountingVm::create_new_state();
                            let one: &'static str = "111111";
                            for k in [a, b, c] {
                                p.parse(&one[..k], &mut s).map_err(|e| format!("{e}"))?;
                            }
                            // a rejected script counts what was completed
                            let e = p.parse("11x", &mut s).is_err();
                            st.states += 1;
                            st.traces += 1;
                            st.transitions += 4;
                            if s != a + b + c + 2 || !e {
                                return Err(format!("{a}+{b}+{c}+2 actions, counted {s}"));
                            }
                        }
                    }
                }
                let text = "start -> x start | #; x -> p | q | r; p -> \"p\" {PushConst 2;}; q -> \"q\" {PopToReg; Add;}; r -> \"r\" {PushReg;};";
                let vm = StackVm {};
                let mut p = Parser::new_from_text(text, &vm);
                let all: Vec<String> = (0..=5u32)
                    .flat_map(|l| (0..3u32.pow(l)).map(move |i| (0..l).map(|k| ['p', 'q', 'r'][(i / 3u32.pow(k) % 3) as usize]).collect::<String>()))
                    .collect();
                let all: &'static [String] = Box::leak(all.into_boxed_slice());
                for s in all {
                    let mut one = StackVm::create_new_state();
                    p.parse(s, &mut one).map_err(|e| format!("{e}"))?;
                    for k in 0..=s.len() {
                        let mut two = StackVm::create_new_state();
                        p.parse(&s[..k], &mut two).map_err(|e| format!("{e}"))?;
                        p.parse(&s[k..], &mut two).map_err(|e| format!("{e}"))?;
                        st.states += 1;
                        st.traces += 1;
                        st.transitions += 2;
                        if (&one.stack, one.reg, one.reg2, one.error) != (&two.stack, two.reg, two.reg2, two.error) {
                            return Err(format!("{s:?} in one parse: {:?} {} {}; split at {k}: {:?} {} {}", one.stack, one.reg, one.error, two.stack, two.reg, two.error));
                        }
                    }
                }
                Ok(())
            },
        ));
        families.push(family(
            "many",
            "realistic grammars: one parser used 70000 times for a short sentence, a rejected script and another sentence in turn",
            real::real().len() as u64,
            |i, st| {
                let r = &real::real()[i as usize];
                let vm = TraceVm::default();
                let mut short: Vec<&String> = r.sentences.iter().collect();
                short.sort_by_key(|s| s.len());
                let bad = format!("{}ø", short[0]);
                let mut p = Parser::new_from_text(&r.text, &vm);
                let scripts = [short[0], &bad, short[short.len().min(2) - 1]];
                let first: Vec<_> = scripts.iter().map(|s| parse(&mut p, s, &mut vec![])).collect();
                for k in 3..70_000 {
                    st.transitions += 1;
                    st.traces += 1;
                    if parse(&mut p, scripts[k % 3], &mut vec![]) != first[k % 3] {
                        return Err(format!("parse number {k} on one parser, of {:?}, differs from the first\n{}", scripts[k % 3], r.text));
                    }
                }
                st.states += 1;
                Ok(())
            },
        ));
        Check {
            id: "C13",
            technique: "exhaustive bounded exploration of parse histories on one parser against fresh parsers",
            assumptions: vec!["the tree, error kind, position and character, and the actions are what a parse shows; the wording of 'expected' is not compared".into()],
            families,
        }
    })
}
