//! Rule files that are large in one dimension: number of alternatives, elements, rules,
//! statements, directives, instructions; length of terminals, names, white space, sections. What
//! some scripts have to give is known by construction.
use crate::huge::SIZES;
use crate::run::*;

pub struct Big {
    pub what: String,
    pub text: String,
    pub scripts: Vec<(String, bool)>,
    /// a parser can be built
    pub ll1: bool,
}
pub const KINDS: usize = 18;
fn ch(k: usize) -> char {
    char::from_u32(0x1_0000 + k as u32).unwrap()
}
fn join(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(sep)
}
/// Number `kind` with size n; `ig`: a directive, and an ignorable rule, put around it.
pub fn big(kind: usize, n: usize, ig: bool) -> Option<Big> {
    let mut scripts: Vec<(String, bool)> = vec![];
    let c = |k: usize| ch(k).to_string();
    let sep = if ig { "~" } else { "" };
    let mut say = |s: String, ok: bool| scripts.push((s, ok));
    let many_rules = n <= 33_000;
    let body = match kind {
        0 => {
            for k in [0, n / 2, n - 1] {
                say(c(k) + sep + "é", true);
                say(c(k) + "x", false);
            }
            format!("start -> {};", join(n, "|", |k| format!("\"{}\" \"é\"", ch(k))))
        }
        1 => {
            let s = |m: usize| join(m, sep, |k| ["a", "b", "é"][k % 3].into());
            say(s(n), true);
            say(s(n - 1), false);
            say(s(n + 1), false);
            format!("start -> {};", join(n, " ", |k| format!("\"{}\"", ["a", "b", "é"][k % 3])))
        }
        2 | 3 if many_rules => {
            let r = join(n, " ", |k| format!("r{k} -> \"{}\" \"z\";", ch(k)));
            say(["s", &c(0), "z", &c(n - 1), "z"].join(sep), true);
            say(["s", &c(0), "z", &c(1), "z"].join(sep), n == 2);
            say(c(0) + sep + "z", false);
            let s = format!("start -> \"s\" r0 r{};", n - 1);
            if kind == 2 { r + &s } else { s + &r }
        }
        4 => {
            let w: String = "日x".chars().cycle().take(n).collect();
            say(w.clone() + sep + "!", true);
            say(w.clone(), false);
            say(w.clone() + "x!", false);
            format!("start -> \"{w}\" \"!\";")
        }
        5 => {
            let w = "x_1É".chars().cycle().take(n).collect::<String>();
            say("a".to_string() + sep + "b", true);
            say("b".into(), false);
            format!("start -> {w} {w}2; {w} -> \"a\"; {w}2 -> \"b\";")
        }
        6 => {
            let w: String = " \n\t".chars().cycle().take(n).collect();
            say("a".to_string() + sep + "c", true);
            say("b".into(), true);
            say("a".into(), false);
            format!("{w}start{w}->{w}\"a\"{w}d{w}|{w}\"b\"{w};{w}d -> \"c\" {{}}{w};{w}")
        }
        7 => {
            for k in [0, n / 2, n - 1] {
                say(c(k) + sep + "z", true);
                say(c(k), false);
            }
            say("q".into(), true);
            join(n, " ", |k| format!("start -> \"{}\" \"z\";", ch(k))) + "d -> \"q\"; start -> d;"
        }
        8 => {
            // the alternatives of one rule are others than those of the next
            for k in [0, n / 2, n - 1] {
                say([c(k), c(n + k)].join(sep), true);
                say([c(n + k), c(k)].join(sep), false);
            }
            format!("start -> p q; p -> {}; q -> {} | #;", join(n, " | ", |k| format!("\"{}\"", ch(k))), join(n, " | ", |k| format!("\"{}\"", ch(n + k))))
        }
        9 => {
            let t = ["1"; 40].join(" ");
            say(["a", "b"].join(sep), true);
            say("a".into(), false);
            format!("start -> \"a\" d {{{}}}; d -> \"b\" {{ {t} }} ;", " ".repeat(n))
        }
        10 => {
            say(["a", "b"].join(sep), true);
            say("ab!".into(), false);
            format!("start -> \"a\" d {{ {} }}; d -> \"b\" {{1}};", "-".repeat(n))
        }
        11 if many_rules => {
            // every rule stated twice
            say([c(0), c(n - 1)].join(sep), true);
            say(["b".to_string() + sep + &c(n - 1), "b".to_string() + sep + &c(0)].join(sep), true);
            say([c(n - 1), c(0)].join(sep), n == 1);
            format!(
                "{} start -> r0 r{1} | \"b\" r{1} \"b\" r0; {2}",
                join(n, "\n", |k| format!("r{k} -> \"{}\";", ch(k))),
                n - 1,
                join(n, "\n", |k| format!("r{k} -> \"~~\" \"{}\";", ch(k)))
            )
        }
        12 => {
            // two alternatives that begin alike
            let mut a: Vec<String> = (0..n).map(|k| format!("\"{}\" \"é\"", ch(k))).collect();
            a.insert(n / 2, format!("\"{}\"", ch(n - 1)));
            format!("start -> {};", a.join("|"))
        }
        13 if many_rules => {
            // a rule that is not there, one that begins with itself
            format!("{} start -> \"s\" r0 r{n};", join(n, " ", |k| format!("r{k} -> \"{}\" \"z\";", ch(k))))
        }
        14 if many_rules => {
            format!("{} start -> \"s\" r0 r{n}; r{n} -> e r{n} \"x\" | \"y\"; e -> #;", join(n, " ", |k| format!("r{k} -> \"{}\" \"z\";", ch(k))))
        }
        15 => {
            // terminals that are each other's beginnings
            if n > 300 {
                return None;
            }
            say(join(n, sep, |k| "a".repeat(k + 1)), true);
            say(join(n - 1, sep, |k| "a".repeat(k + 1)), false);
            format!("start -> {};", join(n, " ", |k| format!("\"{}\"", "a".repeat(k + 1))))
        }
        16 => {
            // escapes
            say(["\"".repeat(n), "z".into()].join(sep), true);
            say(["\"".repeat(n - 1), "z".into()].join(sep), false);
            format!("start -> \"{}\" \"z\";", "\\\"".repeat(n))
        }
        17 => {
            // a rule used n times
            if n > 10_000 {
                return None;
            }
            let s = |n: usize| join(n, sep, |k| ["e", ["f", "g"][k % 2]].join(sep));
            say(s(n), true);
            say(s(n - 1), false);
            format!("start -> {}; d -> \"e\" x; x -> \"f\" | \"g\";", join(n, " ", |_| "d".into()))
        }
        _ => return None,
    };
    let text = if ig { format!("$IGNORE: ws; {body} ws -> \"~\" | # ;") } else { body };
    // the escape stays in the text, as a terminal's
    if kind == 16 {
        scripts.iter_mut().for_each(|s| s.0 = s.0.replace('"', "\\\""));
    }
    let ll1 = !(12..=14).contains(&kind) && !(ig && kind == 11);
    Some(Big { what: format!("big file {kind} of size {n}{}", if ig { ", with an ignorable rule" } else { "" }), text, scripts, ll1 })
}
pub const BOUND: &str = "n alternatives, elements, rules before and behind the start rule, statements about one rule, statements about n rules twice, instructions, uses of one rule, escapes; a terminal, a name, white space, a section of n characters; n alternatives of which two begin alike, a rule undefined or left-recursive behind n others; each with and without an ignorable rule; n around 128, 256, 4096, 32768, 65536 and 70000 (rules up to 32768)";
pub fn each(name: &str, bound: &str, check: impl Fn(&Big, &mut Stat) -> Result<(), String> + Send + Sync + 'static) -> Family {
    let per = (KINDS * 2) as u64;
    family(name, &format!("{BOUND}: {bound}"), per * (SIZES.len() as u64 + 1), move |i, st| {
        let k = (i / per) as usize;
        let n = if k < SIZES.len() { SIZES[k] } else { 520 };
        let Some(b) = big((i % per / 2) as usize, n, i % 2 == 1) else { return Ok(()) };
        st.states += 1;
        st.transitions += b.text.len() as u64;
        st.sample(|| b.what.clone());
        check(&b, st).map_err(|e| format!("{}: {}", b.what, cut(&e)))
    })
}
/// Messages about large files are large themselves.
pub fn cut(e: &str) -> String {
    let n = e.chars().count();
    if n < 2000 {
        return e.to_string();
    }
    let c: Vec<char> = e.chars().collect();
    format!("{} [...] {}", c[..1000].iter().collect::<String>(), c[n - 500..].iter().collect::<String>())
}
/// Places in a large file at which it is damaged.
pub fn places(t: &[char]) -> Vec<usize> {
    let n = t.len();
    let mut v: Vec<usize> = (0..n.min(12)).collect();
    v.extend(n.saturating_sub(24)..=n);
    v.extend(n / 2..(n / 2 + 12).min(n));
    v.extend(n / 3..(n / 3 + 4).min(n));
    for b in [8, 9, 10, 12, 15, 16, 17] {
        let p = 1usize << b;
        v.extend([p - 1, p, p + 1]);
    }
    v.retain(|p| *p <= n);
    v.sort();
    v.dedup();
    v
}

/// Shapes a name can have: capitals, digits, underscores, one letter, several scripts.
pub const NAMES: &[&str] = &[
    "w", "W", "ws", "WS", "Ws", "wS", "w_", "w_s", "W_S", "w1", "W1", "w12", "w_1_", "ignore", "IGNORE", "Ignore", "ignored", "start2", "Start", "START", "starts", "tart", "é", "É", "ж", "日本", "ｗ", "ß1", "ª", "IG", "EMPTY", "END", "ws2", "sw", "a_very_long_name_of_a_rule_with_more_than_forty_letters", "A1B2C3",
];
/// Two files with ignorables that use names v and w: by directive with an exempted rule, and by
/// overrides; every rule has neighbours to put something between.
pub fn named(k: usize, v: &str, w: &str) -> String {
    match k {
        0 => format!("$IGNORE: {v}; start -> \"a\" {w} \"b\" | \"c\" \"d\"; {w} -> \"e\" \"f\" | # ; {v} -> \" \" {v} | \"\\t\" \"\\n\" | #;"),
        1 => format!("{w} -> $[IGNORE:{v}] \"e\" \"f\" | \"g\" {w} \"h\"; {v} -> \"_\" | #; start -> \"a\" {w} \"b\" | {w};"),
        2 => format!("$IGNORE:{v};{w} -> $[IGNORE:#] \"e\" \"f\"; start -> \"a\" {w} \"b\"; {v} -> \"_\";"),
        3 => format!("start -> \"s\" {w} {v} \"z\" ; {v} -> $[IGNORE:{w}]\"1\" \"2\" | \"3\"; {w} -> $[IGNORE:{v}]\"4\" \"5\" | #;"),
        _ => format!("{w} -> \"x\" {{1}}; $IGNORE: {v} ; start -> \"s\" {w} | \"t\" {v} {w} {{2}}; {v} -> q {w} q; q -> \".\" \"!\" | #; {w} -> \"y\" \"z\";"),
    }
}
pub const NAMED: usize = 5;
