//! C10: malformed rule files are refused, never silently misread.
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::NullVm;
use hx::dump::check_text;
use hx::real::edits;
use hx::refread;
use hx::run::*;

const TOKENS: &[&str] = &["a", "b", "->", "-", ";", "|", "#", "\"x\"", "\"", "{", "}", "$", "IGNORE", ":", "[", "]", " ", "\\", ">", "é"];

/// Depth-first over token strings: a text that no continuation can repair is extended by `slack`
/// more tokens only.
fn grow(text: &mut String, depth: usize, slack: usize, toks: &[&str], st: &mut Stat) -> Result<(), String> {
    st.states += 1;
    st.traces += 1;
    let r = check_text(text, true)?;
    st.count(if r.is_some() { "well-formed" } else { "malformed" });
    if depth == 0 {
        return Ok(());
    }
    let cs: Vec<char> = text.chars().collect();
    let dead = matches!(refread::read(&cs), Err(p) if p < cs.len());
    if dead && slack == 0 {
        return Ok(());
    }
    for t in toks {
        let l = text.len();
        text.push_str(t);
        st.transitions += 1;
        grow(text, depth - 1, if dead { slack - 1 } else { slack }, toks, st)?;
        text.truncate(l);
    }
    Ok(())
}

const FILES: &[&str] = &[
    "start -> \"a\";",
    "start->a|#;a->\"x\" \"y\"start{Add;PushConst 3;};",
    "start -> \"a\" b \"c\" | # {1} ;\nb -> \"\\\"q\\\\\" | \"|;#\" ;",
    "$IGNORE: ws; start -> \"a\" \"b\"; ws -> $[IGNORE:#]\" \" ws | #;",
    "start -> $[IGNORE:ws]\"a\" x_1 {} ; ws->\"\\n\"; x_1 -> #;",
    "ä -> \"😀\" ä2 | #; ä2 -> ä {\\}} ; start -> ä;",
    "start -> a\n | \"b\"\n | c d\n ;\na -> \"1\";c->\"2\";d->#;",
];
const CHARS: &[char] = &['a', '"', '\\', ';', '|', '#', '{', '}', '-', '>', '$', '[', ']', ':', ' ', '\n', '_', '1', 'é', '😀'];

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let mut families = vec![];
        // all token strings, no pruning
        let d = if q { 6 } else { 7 };
        let n = TOKENS.len() as u64;
        families.push(family(
            "tokens",
            &format!("all texts of up to {d} tokens out of {n}"),
            n * n + 1,
            move |i, st| {
                let (mut t, k) = if i == n * n { (String::new(), 1) } else {
                    (format!("{}{}", TOKENS[(i / n) as usize], TOKENS[(i % n) as usize]), d - 2)
                };
                grow(&mut t, k, usize::MAX, TOKENS, st)
            },
        ));
        // deep: after a prefix, long continuations that can still become well-formed
        let toks: &[&str] = &["a", "b", "->", ";", "|", "#", "\"x\"", "{", "}", "$", "IGNORE", ":", "[", "]", " "];
        let heads: &[&str] = &["", "a->\"x\";", "$IGNORE:a;a->#;", "a->a b|", "a->#{", "a->$[", "a -> b ", "b->#;$IGNORE", "a->$[IGNORE:", "a->\"x\"{a}"];
        let m = toks.len() as u64;
        let dd = if q { 6 } else { 7 };
        families.push(family(
            "continuations",
            &format!("after {} beginnings: all texts of up to {dd} further tokens out of {m}, where a text that no continuation can repair is extended by one more token only", heads.len()),
            heads.len() as u64 * m * m,
            move |i, st| {
                let h = heads[(i / (m * m)) as usize];
                let j = i % (m * m);
                let mut t = format!("{h}{}{}", toks[(j / m) as usize], toks[(j % m) as usize]);
                grow(&mut t, dd - 2, 1, toks, st)
            },
        ));
        // edits of whole files
        let two = !q;
        let mut jobs = vec![];
        for (f, t) in FILES.iter().enumerate() {
            let k = t.chars().count() + 1;
            jobs.extend((0..if two { k } else { 1 }).map(|p| (f, p, k)));
        }
        families.push(family(
            "edits",
            &format!("{} rule files: every text at edit distance 1{} over {} characters, and every truncation", FILES.len(), if two { " and 2" } else { "" }, CHARS.len()),
            jobs.len() as u64,
            move |i, st| {
                let (f, p, k) = jobs[i as usize];
                let s: Vec<char> = FILES[f].chars().collect();
                let first = edits(&s, CHARS);
                let mut all: Vec<Vec<char>> = if p == 0 {
                    first
                } else {
                    first.iter().enumerate().filter(|(x, _)| x % (k - 1) == p - 1).flat_map(|(_, e)| edits(e, CHARS)).collect()
                };
                all.sort();
                all.dedup();
                for c in all {
                    let t: String = c.iter().collect();
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += c.len() as u64;
                    let r = check_text(&t, true)?;
                    st.count(if r.is_some() { "well-formed" } else { "malformed" });
                    // building a parser from malformed text never succeeds
                    if r.is_none() && refread::read(&c).is_err() {
                        if catch(|| Parser::new_from_text(&t, &NullVm::new()).parse("", &mut 0usize).is_ok()).is_ok() {
                            return Err(format!("a parser was built from malformed rule text {t:?}"));
                        }
                    }
                }
                st.sample(|| format!("edits of {:?}", FILES[f]));
                Ok(())
            },
        ));
        families.extend(hx::uni::texts("", hx::uni::HOLES, |t, st| {
            st.states += 1;
            st.traces += 1;
            st.transitions += t.len() as u64;
            st.count(if check_text(t, true)?.is_some() { "well-formed" } else { "malformed" });
            Ok(())
        }));
        families.push(hx::big::each("huge", "the file cut off, with one of 12 characters put in, or with a character missing, at up to 100 places near its ends, in the middle, at a third and at powers of two", move |b, st| {
            let c: Vec<char> = b.text.chars().collect();
            let mut ps = hx::big::places(&c);
            // large files: some of the places
            let step = match (q, c.len()) { (_, 0..20_000) => 1, (true, 0..100_000) => 19, (true, _) => 40, (_, _) => 4 };
            if c.len() > 20_000 {
                let n = ps.len();
                ps = ps.into_iter().enumerate().filter(|(k, _)| k % step == 0 || k + 3 > n).map(|x| x.1).collect();
            }
            let mut one = |t: String, st: &mut Stat| -> Result<(), String> {
                st.traces += 1;
                st.count(if check_text(&t, true)?.is_some() { "well-formed" } else { "malformed" });
                Ok(())
            };
            for p in ps {
                let (a, z): (String, String) = (c[..p].iter().collect(), c[p..].iter().collect());
                if p < c.len() {
                    one(a.clone(), st)?;
                    one(format!("{a}{}", c[p + 1..].iter().collect::<String>()), st)?;
                }
                for x in ['"', ';', '|', '#', '{', '}', '-', '$', ']', '\\', 'é', '§'] {
                    one(format!("{a}{x}{z}"), st)?;
                }
            }
            Ok(())
        }));
        Check {
            id: "C10",
            technique: "exhaustive bounded exploration of rule texts (token strings, continuations, edits) against a reference reader",
            assumptions: vec!["files whose ignorable rule is not defined may be read or refused".into(), "which of several sections or ignore settings of a repeated rule counts is left open".into()],
            families,
        }
    })
}
