//! Every Unicode character, everywhere a character may stand.
use crate::fam::GFam;
use crate::gram::{analyse, Gram, Sym::*};
use crate::langs::{case_of, count, put_acts, Case, Subject};
use crate::run::*;
use std::sync::Arc;

pub const CHUNK: u64 = 256;
pub const CHUNKS: u64 = 0x110000 / CHUNK;
pub fn chars_of(i: u64) -> impl Iterator<Item = char> {
    (i * CHUNK..(i + 1) * CHUNK).filter_map(|u| char::from_u32(u as u32))
}

/// Characters some text handling somewhere treats as special, and neighbours of them.
pub const SPECIAL: &[char] = &[
    '\u{0}', '\u{1}', '\u{4}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1f}', ' ', '"', '#', '$', '%', '\'', '-', '/', '0', '9', 'A', 'I', 'a',
    'i', '\\', '^', '_', '`', '{', '}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', 'ß', 'é', '\u{ff}', 'İ', 'ı', 'ſ', '\u{301}', 'Σ', 'ς', '\u{661}', '\u{200b}', '\u{200d}', '\u{200e}',
    '\u{2028}', '\u{2029}', '\u{202e}', '\u{2060}', '\u{212a}', '\u{3000}', '日', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fe0f}', 'ﬁ', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '😀',
    '\u{e0001}', '\u{10ffff}',
];
pub fn pairs() -> u64 {
    (SPECIAL.len() * SPECIAL.len()) as u64
}
pub fn pair(i: u64) -> (char, char) {
    let k = SPECIAL.len() as u64;
    (SPECIAL[(i / k) as usize], SPECIAL[(i % k) as usize])
}

/// Characters that are taken for `c` if something less than the whole character is compared.
pub fn relatives(c: char) -> Vec<char> {
    let u = c as u32;
    let mut v: Vec<char> = c.to_lowercase().chain(c.to_uppercase()).chain([u ^ 0x20, u & 0xff, u & 0xffff, u ^ 0x100, u + 1, u.wrapping_sub(1), u ^ 0x80].into_iter().filter_map(char::from_u32)).collect();
    v.retain(|x| *x != c);
    v.sort();
    v.dedup();
    v
}

/// Grammars around a character; the others in them are made of the letters in `l`.
const SHAPES: usize = 4;
fn shape(k: usize, c: char, l: [char; 3]) -> Gram {
    let [x, y, z] = l.map(|c| c.to_string());
    let s = c.to_string();
    match k {
        // in the grammar, alone and within a terminal
        0 => Gram::new(&["start", "mid"], &[&x, &s, &(y + &s)], vec![vec![vec![T(0), N(1)]], vec![vec![T(1), N(0)], vec![T(2)]]]),
        // behind and before rules that may be empty
        1 => Gram::new(
            &["start", "opt", "tail"],
            &[&s, &x, &(s.clone() + &y), &z],
            vec![vec![vec![N(1), T(0), N(1), N(2)]], vec![vec![T(1)], vec![]], vec![vec![T(2)], vec![T(3), N(0)], vec![]]],
        ),
        // only within scripts
        2 => Gram::new(&["start"], &[&x, &y], vec![vec![vec![T(0), N(0)], vec![T(1)], vec![]]]),
        // against two others
        _ => Gram::new(&["start", "a", "b"], &[&x, &s, &y], vec![vec![vec![N(1), N(0)], vec![N(2)], vec![]], vec![vec![T(0)], vec![T(1), T(1)]], vec![vec![T(2)]]]),
    }
}
/// Scripts for a shape, with `c` for the character and x, y, z for the letters.
const SCRIPTS: [&[&str]; SHAPES] = [
    &["", "c", "xc", "xyc", "xcxyc", "xcx", "xcxy", "xy", "xx", "cxyc", "xycc", "xcc", "xyx", "yc", "xzc"],
    &["", "c", "xc", "cx", "xcx", "ccy", "xcxcy", "czc", "czxcx", "cc", "x", "y", "cy", "ccyc", "cxc", "czz", "zc"],
    &["", "x", "xy", "c", "cx", "xc", "xcy", "xyc", "cxy", "xxc", "xxcx", "cc", "xcc", "ccx", "yc"],
    &["", "cc", "xcc", "ccx", "ccy", "y", "xxy", "c", "xc", "ccc", "cxc", "cy", "yc", "ccyc", "xcx"],
];
const LETTERS: [char; 6] = ['x', 'y', 'z', 'u', 'v', 'w'];
fn letters(c: char) -> [char; 3] {
    let mut l = LETTERS.into_iter().filter(|x| *x != c);
    [l.next().unwrap(), l.next().unwrap(), l.next().unwrap()]
}
fn put(c: char, l: [char; 3], s: &str) -> Vec<char> {
    s.chars()
        .map(|x| match x {
            'c' => c,
            'x' => l[0],
            'y' => l[1],
            _ => l[2],
        })
        .collect()
}
/// A grammar of `c` alone, and one of `c` and a relative.
fn alone(c: char) -> Gram {
    Gram::new(&["start"], &[&c.to_string()], vec![vec![vec![T(0), N(0)], vec![]]])
}
/// A character against its relatives: both as alternatives (sound), and alternatives that only look
/// different (not LL(1)).
pub fn clashes(c: char) -> Vec<Gram> {
    let [x, y, _] = letters(c).map(|c| c.to_string());
    let s = c.to_string();
    let mut v: Vec<Gram> = relatives(c)
        .into_iter()
        .map(|r| Gram::new(&["start", "opt"], &[&s, &r.to_string(), &(s.clone() + &r.to_string())], vec![vec![vec![T(0), N(1)], vec![T(1), N(0)]], vec![vec![T(1)], vec![]]]))
        .collect();
    v.push(Gram::new(&["start", "opt"], &[&(s.clone() + &x), &(s.clone() + &y)], vec![vec![vec![T(0)], vec![T(1)]], vec![vec![]]]));
    v.push(Gram::new(&["start", "opt"], &[&s, &x], vec![vec![vec![N(1), T(0)]], vec![vec![T(0)], vec![]]]));
    v
}
/// The grammars around `c` that rule text can spell.
fn spelled(c: char) -> impl Iterator<Item = (usize, Gram)> {
    (0..SHAPES).filter(move |k| *k == 2 || !matches!(c, '"' | '\\')).map(move |k| (k, shape(k, c, letters(c))))
}
pub const BOUND: &str = "every Unicode character in 4 grammars: as terminal, within one, before, behind and between rules that may be empty, or only in scripts; against its relatives (case, neighbours, characters that agree in some bits)";

/// Every character in scripts; the outcomes do not depend on which character it is.
pub fn langs(trees: bool, acts: bool, decide: fn(&Subject, &mut Stat) -> Result<(), String>) -> Vec<Family> {
    let stand = '\u{e123}';
    let cases: Vec<Vec<Case>> = (0..SHAPES)
        .map(|k| {
            let g = shape(k, stand, letters(stand));
            let an = analyse(&g);
            assert!(an.ll1() && an.all_productive());
            SCRIPTS[k].iter().map(|s| case_of(&g, &an, put(stand, letters(stand), s), trees)).collect()
        })
        .collect();
    let mut v = vec![family("every-character", &format!("{BOUND}; 15 scripts each"), CHUNKS, move |i, st| {
        for c in chars_of(i) {
            for (k, mut g) in spelled(c) {
                let an = analyse(&g);
                let l = letters(c);
                if acts {
                    put_acts(&mut g, c as u64 % 9);
                }
                let cs = cases[k]
                    .iter()
                    .zip(SCRIPTS[k])
                    .enumerate()
                    .filter(|(j, (w, _))| !acts || w.accept || (j + c as usize) % 4 == 0)
                    .map(|(_, (w, s))| (w, s))
                    .map(|(w, s)| {
                        let s = put(c, l, s);
                        Case { text: s.iter().collect(), s, accept: w.accept, viable: w.viable, tree: w.tree.as_ref().map(|t| retell(t, &g, c, l, stand)) }
                    })
                    .collect();
                let sub = Subject { text: g.render(), g, an, cases: cs };
                count(&sub, st);
                decide(&sub, st)?;
            }
            if matches!(c, '"' | '\\') {
                continue;
            }
            let g = alone(c);
            let an = analyse(&g);
            let mut cs = vec![];
            for r in relatives(c) {
                for (s, viable) in [(vec![r], 0), (vec![c, r], 1), (vec![c, r, c], 1)] {
                    cs.push(Case { text: s.iter().collect(), s, accept: false, viable, tree: None });
                }
                if acts {
                    break;
                }
            }
            let sub = Subject { text: g.render(), g, an, cases: cs };
            count(&sub, st);
            decide(&sub, st)?;
        }
        Ok(())
    })];
    v.extend(crate::langs::only(trees, acts, |_| true, special_pairs(), decide));
    v
}
fn retell(t: &crate::gram::DTree, _g: &Gram, c: char, l: [char; 3], stand: char) -> crate::gram::DTree {
    t.map_text(&|s| put(c, l, &s.chars().map(|x| if x == stand { 'c' } else { x }).collect::<String>()).into_iter().collect())
}
/// Two special characters in one grammar and in scripts.
pub fn special_pairs() -> Vec<GFam> {
    let n = SPECIAL.len();
    let ok = |c: char| !matches!(c, '"' | '\\');
    let ps: Vec<(char, char)> = (0..pairs()).map(pair).filter(|p| ok(p.0) && ok(p.1) && p.0 != 'x' && p.1 != 'x').collect();
    vec![
        GFam {
            name: "special-pairs",
            bound: format!("start -> \"cd\" start | \"x\" d; d -> \"d\" | #: all pairs c, d of {n} special characters; all scripts of up to 4 characters"),
            n: ps.len() as u64,
            make: {
                let ps = ps.clone();
                Arc::new(move |i| {
                    let (c, d) = ps[i as usize];
                    Gram::new(&["start", "d"], &[&format!("{c}{d}"), "x", &d.to_string()], vec![vec![vec![T(0), N(0)], vec![T(1), N(1)]], vec![vec![T(2)], vec![]]])
                })
            },
            sigma: None,
            maxlen: 4,
        },
        GFam {
            name: "special-foreign",
            bound: format!("the same grammar without d, scripts of x and up to two foreign characters out of {n} special ones, up to 4 characters"),
            n: ps.len() as u64,
            make: Arc::new(move |i| {
                let (c, d) = ps[i as usize];
                // the characters are in the grammar, but in a rule that is never reached
                let mut cd = vec![c.to_string()];
                if d != c {
                    cd.push(d.to_string());
                }
                let ts: Vec<&str> = ["x", "y"].into_iter().chain(cd.iter().map(|s| s.as_str())).collect();
                let far = (2..ts.len()).map(|k| vec![T(k)]).collect();
                Gram::new(&["start", "far"], &ts, vec![vec![vec![T(0), N(0)], vec![T(1)], vec![]], far])
            }),
            sigma: None,
            maxlen: 4,
        },
    ]
}
/// Every character in grammars, for checks that decide a grammar as such.
pub fn grams(decide: impl Fn(&Gram, &mut Stat) -> Result<(), String> + Send + Sync + 'static) -> Family {
    family("every-character", BOUND, CHUNKS, move |i, st| {
        for c in chars_of(i) {
            for k in [0, 1, 3] {
                decide(&shape(k, c, letters(c)), st)?;
            }
            for g in clashes(c) {
                decide(&g, st)?;
            }
        }
        Ok(())
    })
}
/// Every place between and within the tokens of rule files.
pub const HOLES: &[&str] = &[
    "□start -> \"a\" b;b -> \"c\" | #;",
    "start□-> \"a\" b|b2;b->\"c\"|#{1};b2->#;",
    "st□art -> \"a\";b->start;",
    "start -□> \"a\";",
    "start ->□\"a\" b;b->#;",
    "start ->\"a□z\"b;b->#;",
    "start ->\"□\"b;b->#;",
    "start -> \"a\"□b;b->#;",
    "start -> b□\"a\";b->#;",
    "start -> b□b;b->#;",
    "start -> b|□#;b->\"x\";",
    "start -> #□;b->\"x\";",
    "start -> b{x;y}□;b->\"x\";",
    "start -> b{□x;y□};b->\"x\";",
    "start -> b;□b->\"x\";□",
    "□$IGNORE:ws;start->\"a\" \"b\";ws->#;",
    "$□IGNORE:ws;start->\"a\" \"b\";ws->#;",
    "$IGNORE□:ws;start->\"a\" \"b\";ws->#;",
    "$IGNORE:□ws;start->\"a\" \"b\";ws->#;",
    "$IGNORE:ws□;start->\"a\" \"b\";ws->#;",
    "start->□$[IGNORE:ws]\"a\" \"b\";ws->#;",
    "start->$□[IGNORE:ws]\"a\" \"b\";ws->#;",
    "start->$[□IGNORE:ws]\"a\" \"b\";ws->#;",
    "start->$[IGNORE□:ws]\"a\" \"b\";ws->#;",
    "start->$[IGNORE:□ws]\"a\" \"b\";ws->#;",
    "start->$[IGNORE:ws□]\"a\" \"b\";ws->#;",
    "start->$[IGNORE:#]□\"a\" \"b\";ws->#;",
];
/// Every character at every hole (□) of some texts, and every pair of special characters there.
pub fn texts(what: &str, holes: &'static [&'static str], check: fn(&str, &mut Stat) -> Result<(), String>) -> Vec<Family> {
    let n = holes.len();
    let fill = |t: &str, s: &str| t.replace('□', s);
    vec![
        family(&format!("every-character{what}"), &format!("every Unicode character at the marked places of {n} texts, e.g. {:?}", holes[0]), CHUNKS, move |i, st| {
            for c in chars_of(i) {
                for t in holes {
                    check(&fill(t, &c.to_string()), st)?;
                }
            }
            Ok(())
        }),
        family(&format!("special-pairs{what}"), &format!("all pairs of {} special characters, and none, at the marked places of {n} texts", SPECIAL.len()), pairs() + 1, move |i, st| {
            for t in holes {
                if i == pairs() {
                    check(&fill(t, ""), st)?;
                } else {
                    let (c, d) = pair(i);
                    check(&fill(t, &format!("{c}{d}")), st)?;
                }
            }
            Ok(())
        }),
    ]
}
