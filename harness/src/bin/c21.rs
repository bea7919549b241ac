//! C21: stack-machine action text assembles to exactly the instructions written.
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::vms::stack_vm::{Instruction as J, StackVm};
use henriks_parsing_project::vms::VM;
use hx::run::*;

#[derive(Clone, Debug, PartialEq)]
struct I(&'static str, Option<u128>);

const PLAIN: &[&str] = &["Add", "Sub", "Digit", "PopToReg", "PopToReg2", "PopDiscard", "PushFromTree", "PushReg", "PushReg2", "PrintReg", "PrintReg2", "PrintError"];
const CONST: &[&str] = &["RegAddConst", "PushConst", "Pow"];

fn view(j: &J) -> I {
    match j {
        J::Add => I("Add", None),
        J::Sub => I("Sub", None),
        J::Digit => I("Digit", None),
        J::PopToReg => I("PopToReg", None),
        J::PopToReg2 => I("PopToReg2", None),
        J::PopDiscard => I("PopDiscard", None),
        J::PushFromTree => I("PushFromTree", None),
        J::PushReg => I("PushReg", None),
        J::PushReg2 => I("PushReg2", None),
        J::PrintReg => I("PrintReg", None),
        J::PrintReg2 => I("PrintReg2", None),
        J::PrintError => I("PrintError", None),
        J::RegAddConst(c) => I("RegAddConst", Some(*c as u128)),
        J::PushConst(c) => I("PushConst", Some(*c as u128)),
        J::Pow(c) => I("Pow", Some(*c as u128)),
    }
}

enum Want {
    Is(Vec<I>),
    Refused,
    /// left open: these instructions or refused
    Either(Vec<I>),
}
/// An assembler of its own: a list of statements, each ended by ';'.
fn assemble(text: &[char]) -> Want {
    let mut out = vec![];
    let mut open = false;
    let mut i = 0;
    let ws = |i: &mut usize| {
        while *i < text.len() && text[*i].is_whitespace() {
            *i += 1
        }
    };
    ws(&mut i);
    while i < text.len() {
        if !text[i].is_alphabetic() {
            return Want::Refused;
        }
        let a = i;
        while i < text.len() && (text[i].is_alphanumeric() || text[i] == '_') {
            i += 1
        }
        let name: String = text[a..i].iter().collect();
        if let Some(n) = PLAIN.iter().find(|n| **n == name) {
            out.push(I(n, None));
        } else if let Some(n) = CONST.iter().find(|n| **n == name) {
            ws(&mut i);
            let a = i;
            while i < text.len() && text[i].is_ascii_digit() {
                i += 1
            }
            if a == i {
                return Want::Refused;
            }
            let d: String = text[a..i].iter().collect();
            let d = d.trim_start_matches('0');
            if d.len() > 25 {
                return Want::Refused;
            }
            let v: u128 = if d.is_empty() { 0 } else { d.parse().unwrap() };
            let max = if *n == "Pow" { usize::MAX as u128 } else { isize::MAX as u128 };
            if v > max {
                return Want::Refused;
            }
            out.push(I(n, Some(v)));
        }
        if i < text.len() && text[i].is_whitespace() {
            // whitespace before the semicolon: not among the places the property names
            open = true;
            ws(&mut i);
        }
        if i >= text.len() || text[i] != ';' {
            return Want::Refused;
        }
        i += 1;
        ws(&mut i);
    }
    if open {
        Want::Either(out)
    } else {
        Want::Is(out)
    }
}

/// Through the rule reader, and by handing the text to the machine directly.
fn real(text: &str) -> Result<[Result<Vec<I>, ParserError>; 2], Panic> {
    catch(|| {
        let rule = format!("start -> \"a\" {{{text}}}; z -> \"b\";");
        let vm = StackVm {};
        let mut pk = PeekableWrapper::from_str(&rule);
        let mut rp = RuleParser::new(&mut pk, &vm);
        let a = match rp.parse_rules() {
            Err(e) => Err(e),
            Ok(_) => {
                let d = &rp.parser_data;
                let z = d.get_rule_by_element_verbose("z").map(|r| r.instruction.len());
                match d.get_rule_by_element_verbose("start") {
                    Some(r) if z == Some(0) => Ok(r.instruction.iter().map(view).collect()),
                    _ => Err(ParserError::Impossible),
                }
            }
        };
        let mut pk = PeekableWrapper::from_str(text);
        let mut pp = ParseProcess::new(&mut pk, None, None);
        let b = vm.parse_instructions("start", &mut pp).map(|v| v.iter().map(view).collect());
        [a, b]
    })
}
fn judge(text: &str, st: &mut Stat) -> Result<(), String> {
    let cs: Vec<char> = text.chars().collect();
    let want = assemble(&cs);
    let got = real(text).map_err(|p| format!("action text {text:?}: {p}"))?;
    st.states += 1;
    st.traces += 2;
    st.transitions += cs.len() as u64;
    for (how, g) in ["in a rule", "directly"].iter().zip(got) {
        let bad = match (&want, &g) {
            (Want::Is(w), Ok(v)) | (Want::Either(w), Ok(v)) => w != v,
            (Want::Is(_), Err(_)) => true,
            (Want::Refused, Ok(_)) => true,
            (_, Err(_)) => false,
        };
        if bad {
            return Err(format!(
                "action text {text:?} ({how}) reads as {g:?}, expected {}",
                match &want {
                    Want::Is(w) | Want::Either(w) => format!("{w:?}"),
                    Want::Refused => "an error".into(),
                }
            ));
        }
    }
    st.count(match want {
        Want::Is(_) => "assembled",
        Want::Refused => "refused",
        Want::Either(_) => "left open",
    });
    Ok(())
}

const BIG: &[&str] = &["9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0009223372036854775807"];

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        // token texts
        let mut toks: Vec<String> = ["Add", "Pow", "PushConst", "PopToReg2", "Foo_1", " ", "\n", ";", "0", "12", "_", ",", "\"", "é"].iter().map(|s| s.to_string()).collect();
        toks.push(BIG[1].into());
        let k = toks.len() as u64;
        for len in 0..=if q { 6u32 } else { 7 } {
            let toks = toks.clone();
            families.push(family(&format!("tokens-{len}"), &format!("all texts of {len} tokens out of {toks:?}"), k.pow(len), move |mut i, st| {
                let mut s = String::new();
                for _ in 0..len {
                    s.push_str(&toks[(i % k) as usize]);
                    i /= k;
                }
                st.sample(|| format!("{s:?}"));
                judge(&s, st)
            }));
        }
        // well-formed programs
        let mut stm: Vec<String> = PLAIN.iter().map(|s| s.to_string()).collect();
        for c in CONST {
            for v in ["0", "7", "10", "007"].iter().chain(BIG) {
                for w in [" ", "", "\t\n "] {
                    stm.push(format!("{c}{w}{v}"));
                }
            }
        }
        for u in ["add", "Addx", "PopToReg3", "PopToReg_", "Push", "PushConstant", "Ünknown"] {
            stm.push(u.into());
        }
        let n = stm.len() as u64;
        let plen = if q { 3u32 } else { 4 };
        let seps = [";", "; ", ";\n", ";\t\r\n  ", ";\u{a0}"];
        let ns = seps.len() as u64;
        let st2 = stm.clone();
        families.push(family(
            "programs",
            &format!("all programs of {plen} statements out of {n} (every instruction, constants up to and beyond the limits, unknown names), every separation out of {ns}, with and without the last semicolon"),
            n.pow(plen) * ns * 2,
            move |i, st| {
                let (mut j, sep, last) = (i / (2 * ns), seps[(i / 2 % ns) as usize], i % 2 == 0);
                let mut s = String::new();
                for x in 0..plen {
                    s.push_str(&st2[(j % n) as usize]);
                    j /= n;
                    if x + 1 < plen {
                        s.push_str(sep);
                    }
                }
                if last {
                    s.push_str(sep);
                }
                st.sample(|| format!("{s:?}"));
                judge(&s, st)
            },
        ));
        // single edits of a program with every instruction
        let all: Vec<char> = "  PopToReg; Add;Sub;Digit;PopToReg2;\nPopDiscard;Pow 10;RegAddConst 1;PushReg;PushReg2;PushFromTree;PushConst 42; PrintReg;PrintReg2;PrintError;"
            .chars()
            .collect();
        let sigma: Vec<char> = " ;_2aA9.,é\n\\{".chars().collect();
        let m = all.len() as u64 + 1;
        families.push(family(
            "edits",
            "a program of all 15 instructions with every single edit: deletion, substitution by and insertion of each of 12 characters, truncation, two neighbours swapped",
            m * (3 + 2 * sigma.len() as u64),
            move |i, st| {
                let (p, e) = ((i % m) as usize, (i / m) as usize);
                let mut t = all.clone();
                let ns = sigma.len();
                if e == 0 {
                    t.truncate(p);
                } else if e == 1 {
                    if p < t.len() {
                        t.remove(p);
                    }
                } else if e == 2 {
                    if p + 1 < t.len() {
                        t.swap(p, p + 1);
                    }
                } else if e < 3 + ns {
                    if p < t.len() {
                        t[p] = sigma[e - 3];
                    }
                } else {
                    t.insert(p, sigma[e - 3 - ns]);
                }
                let s: String = t.into_iter().collect();
                judge(&s, st)
            },
        ));
        // constants
        let mut cs: Vec<String> = (0..2000u32).map(|x| x.to_string()).collect();
        for b in [isize::MAX as u128, usize::MAX as u128, u32::MAX as u128, i32::MAX as u128] {
            for o in -20i128..=20 {
                cs.push((b as i128 + o).to_string());
                cs.push(format!("{}{}", "0".repeat(25), b as i128 + o));
            }
        }
        for z in 1..60 {
            cs.push("0".repeat(z));
            cs.push("1".repeat(z));
            cs.push("9".repeat(z));
        }
        cs.sort();
        cs.dedup();
        families.push(family("constants", &format!("{} constants for each of the 3 instructions that take one", cs.len()), cs.len() as u64 * 3, move |i, st| {
            judge(&format!("{} {};", CONST[(i % 3) as usize], cs[(i / 3) as usize]), st)
        }));
        families.push(family(
            "huge",
            "programs of n statements, constants behind n zeros, names of n characters, n blanks; n around 128, 256, 4096, 32768, 65536 and 70000; the last statement sound, unknown, or broken",
            hx::huge::SIZES.len() as u64 * 5,
            |i, st| {
                let (n, k) = (hx::huge::SIZES[(i / 5) as usize], i % 5);
                let pre = match k {
                    0 => "Add;".repeat(n),
                    1 => (0..n).map(|j| format!("PushConst {j};\n{};Pow {};", PLAIN[j % PLAIN.len()], j * 3)).collect(),
                    2 => format!("PushConst {}7;", "0".repeat(n)),
                    3 => format!("{};Sub;", "é_1".repeat(n)),
                    _ => format!("{};Sub;", "PushReg; \n\u{a0}".to_string() + &" \t".repeat(n) + "Pow" + &" ".repeat(n) + "12"),
                };
                for tail in ["", "PopDiscard;", "Foo;", "Add", "PushConst ;", "PushConst 9223372036854775808;"] {
                    judge(&format!("{pre}{tail}"), st).map_err(|e| format!("{}\n(kind {k}, n={n}, then {tail:?})", e.chars().take(1500).collect::<String>()))?;
                }
                Ok(())
            },
        ));
        families.extend(hx::uni::texts("", &["□", "Add□;", "□Add;PopToReg", "A□d;", "Add□", "Add;□PopToReg□;", "Pow□3;", "Pow 1□2;Add;", "PushConst 3□;Add", "PushConst□", "Add;Foo□;Sub;", "RegAddConst 007;□"], judge));
        Check {
            id: "C21",
            technique: "exhaustive exploration of action texts on the real assembler against an independent assembler",
            assumptions: vec!["whitespace between a statement and its semicolon is left open".into(), "negative constants are not written".into()],
            families,
        }
    })
}
