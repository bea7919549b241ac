//! C28: each step of the rule reader takes exactly its construct.
use henriks_parsing_project::parse_funcs::parse_whitespace;
use henriks_parsing_project::parser_data::{ElementIndex, ElementType, NonTerminalRules, ParserData, Production};
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::{RuleParser, parse_terminal};
use hx::dump::{ambiguous_repeats, dump, undefined_ignorable, want};
use hx::refread::{El, R, RefRule};
use hx::run::*;
use hx::vmx::TraceVm;

/// What the real step gave: the value written out or nothing for an error, and where the reader is.
type Got = (Option<String>, usize);

fn el(d: &ParserData<TraceVm>, ix: usize) -> String {
    match d.get_element_verbose(ix) {
        None => format!("<unknown {ix}>"),
        Some(e) => show_el(&match e.et {
            ElementType::Terminal => El::T(e.name),
            ElementType::NonTerminal => El::N(e.name),
        }),
    }
}
fn show_el(e: &El) -> String {
    match e {
        El::T(t) => format!("{t:?}"),
        El::N(n) => n.clone(),
    }
}
fn show_alt(a: &[El]) -> String {
    if a.is_empty() { "#".into() } else { a.iter().map(show_el).collect::<Vec<_>>().join(" ") }
}
fn show_alts(a: &[Vec<El>]) -> String {
    a.iter().map(|a| show_alt(a)).collect::<Vec<_>>().join(" | ")
}
fn prod(d: &ParserData<TraceVm>, p: &Production) -> String {
    match p {
        Production::Empty => "#".into(),
        Production::NotEmpty(v) => v.iter().map(|x| el(d, *x)).collect::<Vec<_>>().join(" "),
    }
}
fn show_rule(r: &RefRule) -> String {
    let n = r.section.as_ref().map(|s| s.trim().parse::<usize>().unwrap_or(1)).unwrap_or(0);
    format!("{} -> {} with {n} instructions, ignoring {:?}", r.name, show_alts(&r.alts), r.ignore)
}
fn rule(d: &ParserData<TraceVm>, r: &(ElementIndex, NonTerminalRules<TraceVm>)) -> String {
    let alts = r.1.possible_productions.iter().map(|p| prod(d, p)).collect::<Vec<_>>().join(" | ");
    format!("{} -> {alts} with {} instructions, ignoring {:?}", el(d, r.0), r.1.instruction.len(), r.1.ignore.map(|i| el(d, i)))
}

const STEPS: [&str; 5] = ["parse_terminal", "parse_element", "parse_production", "parse_possible_productions", "parse_rule"];

fn real(step: usize, text: &str, stop: Option<char>, n: usize) -> Result<Got, Panic> {
    catch(|| {
        let vm = TraceVm::default();
        let mut pk = PeekableWrapper::from_str(text);
        let mut none = PeekableWrapper::from_str("");
        let mut rp = RuleParser::new(&mut none, &vm);
        rp.parse_process = ParseProcess::new(&mut pk, stop, None);
        let v = match step {
            0 => parse_terminal(&mut rp.parse_process).ok().map(|t| format!("{t:?}")),
            1 => RuleParser::<TraceVm>::parse_element(&mut rp.parse_process).ok().map(|e| match e {
                None => "#".into(),
                Some(e) => show_el(&if let ElementType::Terminal = e.et { El::T(e.name) } else { El::N(e.name) }),
            }),
            2 => rp.parse_production().ok().map(|p| prod(&rp.parser_data, &p)),
            3 => rp.parse_possible_productions().ok().map(|p| p.iter().map(|p| prod(&rp.parser_data, p)).collect::<Vec<_>>().join(" | ")),
            _ => rp.parse_rule().ok().map(|r| rule(&rp.parser_data, &r)),
        };
        let left = (&mut rp.parse_process).count();
        (v, n - left)
    })
}
/// The step by the notation: value, end, how far whitespace may be taken as well. None: left open.
fn reference(step: usize, cs: &[char]) -> Option<Option<(String, usize, usize)>> {
    let mut r = R { s: cs, i: 0 };
    let v = match step {
        0 => r.terminal().map(|t| format!("{t:?}")),
        1 => match r.peek() {
            Some('#') => {
                r.i += 1;
                Ok("#".into())
            }
            Some('"') => r.terminal().map(|t| format!("{t:?}")),
            _ => r.name(),
        },
        2 => r.alt().map(|a| show_alt(&a)),
        3 => r.alts().map(|a| show_alts(&a)),
        _ => r.rule(&None).map(|r| show_rule(&r)),
    };
    match v {
        Ok(v) => {
            let end = r.i;
            r.ws();
            if (step == 2 || step == 3) && r.peek() == Some('#') && !v.ends_with('#') {
                return Some(None); // '#' behind other elements
            }
            Some(Some((v, if step == 2 || step == 3 { back(cs, end) } else { end }, if step == 2 || step == 3 { r.i } else { end })))
        }
        Err(p) => {
            // a terminal that does not end, behind something: whether the step before it stands is open
            if p == cs.len() && (step == 2 || step == 3) && cs.contains(&'"') {
                return None;
            }
            Some(None)
        }
    }
}
fn back(cs: &[char], mut i: usize) -> usize {
    while i > 0 && cs[i - 1].is_whitespace() {
        i -= 1;
    }
    i
}
fn judge(text: &str, stop: Option<char>, st: &mut Stat) -> Result<(), String> {
    let all: Vec<char> = text.chars().collect();
    let cs: Vec<char> = all.iter().copied().take_while(|c| Some(*c) != stop).collect();
    st.states += 1;
    for step in 0..5 {
        let Some(want) = reference(step, &cs) else {
            st.count("left open");
            continue;
        };
        st.traces += 1;
        st.transitions += 1;
        let say = |m: String| format!("{} on {:?}{}: {m}", STEPS[step], text, stop.map(|s| format!(" bounded by {s:?}")).unwrap_or_default());
        let (got, at) = real(step, text, stop, cs.len()).map_err(|p| say(p.to_string()))?;
        match (want, got) {
            (None, None) => st.count("refused"),
            (None, Some(g)) => return Err(say(format!("there is no such construct at the beginning, but it gives {g}"))),
            (Some((w, ..)), None) => return Err(say(format!("refused, but it spells {w}"))),
            (Some((w, a, b)), Some(g)) => {
                if w != g {
                    return Err(say(format!("gives {g}, but it spells {w}")));
                }
                if at < a || at > b {
                    return Err(say(format!("the reader is left at {at}, but the construct ends at {a}")));
                }
                st.count(STEPS[step]);
            }
        }
    }
    Ok(())
}
/// Rules read one by one, then the rest at once, for every number of rules read by hand.
fn stepwise(text: &str, st: &mut Stat) -> Result<(), String> {
    let cs: Vec<char> = text.chars().collect();
    let mut r = R { s: &cs, i: 0 };
    let mut by_hand: Vec<(RefRule, usize)> = vec![];
    let mut fails = false;
    loop {
        r.ws();
        if matches!(r.peek(), None | Some('$')) {
            break;
        }
        match r.rule(&None) {
            Ok(x) => by_hand.push((x, r.i)),
            Err(_) => {
                fails = true;
                break;
            }
        }
    }
    st.states += 1;
    for k in 0..=by_hand.len() {
        let from = if k == 0 { 0 } else { by_hand[k - 1].1 };
        let rest = hx::refread::read(&cs[from..]);
        st.traces += 1;
        let say = |m: String| format!("{k} rules of {text:?} read one by one, then the rest: {m}");
        catch(|| {
            let vm = TraceVm::default();
            let mut pk = PeekableWrapper::from_str(text);
            let mut rp = RuleParser::new(&mut pk, &vm);
            for (n, (w, end)) in by_hand.iter().take(k).enumerate() {
                parse_whitespace(&mut rp.parse_process);
                st.transitions += 1;
                let g = rp.parse_rule().map_err(|e| format!("rule {n}: {e:?}"))?;
                if rule(&rp.parser_data, &g) != show_rule(w) {
                    return Err(format!("rule {n} is {}, but it spells {}", rule(&rp.parser_data, &g), show_rule(w)));
                }
                if rp.parse_process.cur_pos() != *end {
                    return Err(format!("after rule {n} the reader is at {}, not {end}", rp.parse_process.cur_pos()));
                }
            }
            if k == by_hand.len() && fails {
                parse_whitespace(&mut rp.parse_process);
                if rp.parse_rule().is_ok() {
                    return Err("a rule is read where none is".into());
                }
                return Ok(());
            }
            st.transitions += 1;
            match (&rest, rp.parse_rules().map(|_| ())) {
                (Err(_), Err(_)) => Ok(()),
                (Err(p), Ok(())) => Err(format!("the rest goes wrong at {}, but is read", p + from)),
                (Ok(f), _) if undefined_ignorable(f) || ambiguous_repeats(f) => Ok(()),
                (Ok(_), Err(e)) => Err(format!("the rest is refused: {e:?}")),
                (Ok(f), Ok(())) => {
                    let (g, w) = (dump(&rp.parser_data)?, want(&f.woven()));
                    if g != w {
                        return Err(format!("the rest is read as\n{}but spells\n{}", hx::dump::show(&g), hx::dump::show(&w)));
                    }
                    if rp.parse_process.peek().is_some() {
                        return Err("text is left".into());
                    }
                    Ok(())
                }
            }
        })
        .map_err(|p| say(p.to_string()))?
        .map_err(|m: String| say(m))?;
    }
    Ok(())
}
fn text_of(mut i: u64, toks: &[&str]) -> String {
    // lengths in turn: 0, 1, 2, ...
    let n = toks.len() as u64;
    let (mut len, mut block) = (0, 1);
    while i >= block {
        i -= block;
        block *= n;
        len += 1;
    }
    let mut t = String::new();
    for _ in 0..len {
        t.push_str(toks[(i % n) as usize]);
        i /= n;
    }
    t
}
fn upto(n: u64, d: u32) -> u64 {
    (0..=d).map(|k| n.pow(k)).sum()
}

const TOKENS: &[&str] = &["a", "b1", "->", ";", "|", "#", "\"x\"", "\"", "{", "}", "$[IGNORE:", "]", " ", "\n", "\\", "-", "é"];
const FILES: &[&str] = &[
    "start -> \"a\";",
    "start->a|#;a->\"x\" \"y\"start{Add;PushConst 3;};",
    "start -> \"a\" b \"c\" | # {1} ;\nb -> \"\\\"q\\\\\" | \"|;#\" ;",
    "start -> \"a\" \"b\"; $IGNORE: ws; ws -> $[IGNORE:#]\" \" ws | #; x -> \"a\" ws;",
    "start -> $[IGNORE:ws]\"a\" x_1 {} ; ws->\"\\n\"; x_1 -> #;",
    "ä -> \"😀\" ä2 | #; ä2 -> ä {\\}} ; start -> ä;",
    "start -> a\n | \"b\"\n | c d\n ;\na -> \"1\";c->\"2\";d->#;",
    "a -> b; b -> a; a -> #; b -> \"x\" {2}; c -> a b;",
];
const CHARS: &[char] = &['a', '"', '\\', ';', '|', '#', '{', '}', '-', '>', '$', '[', ']', ':', ' ', '\n', '_', '1', 'é', '😀'];

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        let d = if q { 5 } else { 6 };
        let n = TOKENS.len() as u64;
        families.push(family("pieces", &format!("all texts of up to {d} tokens out of {n}, unbounded and bounded by ';', '|', '\"' and a blank, given to each of the five steps"), upto(n, d), move |i, st| {
            let t = text_of(i, TOKENS);
            st.sample(|| format!("{t:?}"));
            for stop in [None, Some(';'), Some('|'), Some('"'), Some(' ')] {
                judge(&t, stop, st)?;
            }
            Ok(())
        }));
        // terminals and elements, character by character
        let small: Vec<&'static str> = vec!["\"", "\\", "a", " ", "é", "\n", "😀", "#", "_", "7"];
        let (m, dm) = (small.len() as u64, if q { 6 } else { 7 });
        families.push(family("characters", &format!("the same with all texts of up to {dm} of {m} characters behind nothing, a quote, a letter"), upto(m, dm) * 3, move |i, st| {
            let t = format!("{}{}", ["", "\"", "a"][(i % 3) as usize], text_of(i / 3, &small));
            judge(&t, None, st)
        }));
        // rules
        let rt: Vec<&'static str> = vec!["a", "\"x\"", "|", "#", "{2}", ";", " ", "$[IGNORE:w]", "$[IGNORE :#]"];
        let (m, dr) = (rt.len() as u64, if q { 7 } else { 8 });
        families.push(family("rules", &format!("a rule head followed by all texts of up to {dr} tokens out of {m}"), upto(m, dr), move |i, st| {
            let t = format!("r->{}", text_of(i, &rt));
            judge(&t, None, st)
        }));
        // rules one by one
        let whole: Vec<&'static str> = vec!["a->b;", "b->\"x\" a|#;", "a -> # {3} ;", "c->$[IGNORE:b]a\"y\";", " ", "$IGNORE:b;", "a->", "b -> c b a;"];
        let (m, dw) = (whole.len() as u64, if q { 6 } else { 7 });
        families.push(family("one-by-one", &format!("all files of up to {dw} pieces out of {m}, with every number of rules read by hand before the rest"), upto(m, dw), move |i, st| {
            let t = text_of(i, &whole);
            st.sample(|| format!("{t:?}"));
            stepwise(&t, st)
        }));
        families.push(family("edits", &format!("{} rule files and every text at edit distance 1 over {} characters, one by one", FILES.len(), CHARS.len()), FILES.len() as u64, move |i, st| {
            let s: Vec<char> = FILES[i as usize].chars().collect();
            stepwise(FILES[i as usize], st)?;
            for e in hx::real::edits(&s, CHARS) {
                let t: String = e.iter().collect();
                stepwise(&t, st)?;
                judge(&t, None, st)?;
            }
            Ok(())
        }));
        // long gaps
        const GAPPED: &[&str] = &["$IGNORE: ws; start -> \"a\" \"b\" {1} ; ws -> \" \"; x -> $[IGNORE:#]\"c\" \"d\" | # ;", "$IGNORE:x; $IGNORE: w; w -> #; x -> \"a\" w; start -> x \"\";"];
        let far: Vec<usize> = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097].to_vec();
        let of: Vec<&'static str> = FILES.iter().chain(GAPPED).copied().collect();
        let nf = far.len() as u64;
        families.push(family("long-gaps", &format!("{} rule files with {nf} lengths of blanks or newlines, from 15 to 4097, in every place, one by one", of.len()), of.iter().map(|t| t.chars().count() as u64 + 1).sum::<u64>() * nf, move |i, st| {
            let (n, mut i) = (far[(i % nf) as usize], (i / nf) as usize);
            let mut f = 0;
            while i > of[f].chars().count() {
                i -= of[f].chars().count() + 1;
                f += 1;
            }
            for w in [" ", "\n"] {
                let t: String = of[f].chars().take(i).chain(w.repeat(n).chars()).chain(of[f].chars().skip(i)).collect();
                stepwise(&t, st)?;
                judge(&t, None, st)?;
            }
            Ok(())
        }));
        // long constructs
        let sizes: Vec<usize> = (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 16385, 65537]).collect();
        let longs: Vec<fn(usize) -> String> = vec![
            |k| format!("\"{}\" x", "\\\"é".repeat(k)),
            |k| format!("{} x", "äb_1".repeat(k)),
            |k| format!("a{} | b", " b \"c\"".repeat(k)),
            |k| format!("a{} ; b", "|#|b".repeat(k)),
            |k| format!("a{}->b{}{{ {} }} ; x", " ".repeat(k), "\n".repeat(k), "\\}".repeat(k)),
            |k| format!("{}->{}; b -> c;", "a".repeat(k + 1), " | a b ".repeat(k).trim_start_matches(" |").to_string() + if k == 0 { "#" } else { "" }),
        ];
        let nl = longs.len() as u64;
        families.push(family("long", &format!("{nl} kinds of long constructs in {} sizes up to 65537", sizes.len()), nl * sizes.len() as u64, move |i, st| {
            let t = longs[(i % nl) as usize](sizes[(i / nl) as usize]);
            judge(&t, None, st)?;
            stepwise(&t, st)
        }));
        const PIECES: &[&str] = &["□a", "a□", "a□b", "\"□\"", "\"a\"□b", "a|□b", "a□|#", "a□->\"x\";", "a->□\"x\"□;b", "a->\"x\"{□};", "a->#□{1}□;", "a->$[□IGNORE:b]c;", "#□"];
        families.extend(hx::uni::texts("", PIECES, |t, st| judge(t, None, st)));
        Check {
            id: "C28",
            technique: "exhaustive enumeration of texts and of the points where the reader is driven by hand, on the real rule reader against an independent reader",
            assumptions: vec![
                "whitespace behind a production may or may not be taken with it".into(),
                "what a step gives is left open where an unfinished terminal follows other elements".into(),
            ],
            families,
        }
    })
}
