//! C18: lexical helpers consume exactly their token.
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use hx::run::*;

#[derive(Clone, Copy, Debug)]
enum H {
    Ws,
    Digits,
    Usize,
    Isize,
    Name,
    Sym(char),
}
const ALL: &[H] = &[H::Ws, H::Digits, H::Usize, H::Isize, H::Name, H::Sym('a'), H::Sym(';'), H::Sym('é')];

/// value and number of characters taken, or the offending place (None: too large)
type Want = Result<(String, usize), Option<usize>>;
fn oracle(h: H, s: &[char]) -> Want {
    let run = |from: usize, f: &dyn Fn(char) -> bool| s[from..].iter().take_while(|c| f(**c)).count();
    let text = |a: usize, b: usize| s[a..b].iter().collect::<String>();
    let digit = |c: char| c.is_ascii_digit();
    match h {
        H::Ws => Ok((String::new(), run(0, &|c| c.is_whitespace()))),
        H::Digits => {
            let n = run(0, &digit);
            Ok((text(0, n), n))
        }
        H::Usize => {
            let n = run(0, &digit);
            if n == 0 {
                return Err(Some(0));
            }
            let t = canon(&text(0, n));
            if t.len() > 20 || t.parse::<u128>().unwrap() > usize::MAX as u128 {
                return Err(None);
            }
            Ok((t, n))
        }
        H::Isize => {
            let neg = s.first() == Some(&'-');
            let a = neg as usize;
            let n = run(a, &digit);
            if n == 0 {
                return Err(Some(a));
            }
            let t = canon(&text(a, a + n));
            let max = if neg { 1i128 << 63 } else { (1i128 << 63) - 1 };
            if t.len() > 20 || t.parse::<i128>().unwrap() > max {
                return Err(None);
            }
            Ok((if neg && t != "0" { format!("-{t}") } else { t }, a + n))
        }
        H::Name => {
            if !s.first().is_some_and(|c| c.is_alphabetic()) {
                return Err(Some(0));
            }
            let n = 1 + run(1, &|c| c.is_alphanumeric() || c == '_');
            Ok((text(0, n), n))
        }
        H::Sym(c) => {
            if s.first() == Some(&c) {
                Ok((String::new(), 1))
            } else {
                Err(Some(0))
            }
        }
    }
}
/// without leading zeros
fn canon(t: &str) -> String {
    let z = t.trim_start_matches('0');
    if z.is_empty() { "0".into() } else { z.into() }
}
fn call<T: TPeekable<Item = char>>(h: H, p: &mut ParseProcess<T>) -> Result<String, ParserError> {
    match h {
        H::Ws => {
            parse_whitespace(p);
            Ok(String::new())
        }
        H::Digits => parse_digits(p),
        H::Usize => parse_usize(p).map(|v| v.to_string()),
        H::Isize => parse_isize(p).map(|v| v.to_string()),
        H::Name => parse_var_name(p),
        H::Sym(c) => parse_symbol(p, c).map(|_| String::new()),
    }
}
/// `lead` characters are read first; the reader starts at position `start` and stops at '}'.
fn decide(h: H, s: &[char], lead: usize, start: usize, stop: bool) -> Result<(), String> {
    let text: String = s.iter().collect();
    let vis: Vec<char> = if stop { s.iter().copied().take_while(|c| *c != '}').collect() } else { s.to_vec() };
    if lead > vis.len() {
        return Ok(());
    }
    let want = oracle(h, &vis[lead..]);
    let pos0 = start + lead;
    let mut pk = PeekableWrapper::from_str(&text);
    let mut p = ParseProcess::new_nested(&mut pk, if stop { Some('}') } else { None }, None, start);
    for _ in 0..lead {
        p.next();
    }
    let got = match catch(|| call(h, &mut p)) {
        Ok(g) => g,
        Err(e) => return Err(format!("{e}")),
    };
    match (&want, &got) {
        (Ok((v, n)), Ok(g)) => {
            if g != v {
                return Err(format!("returned {g:?}, expected {v:?}"));
            }
            if p.cur_pos() != pos0 + n {
                return Err(format!("left the reader at {}, expected {}", p.cur_pos(), pos0 + n));
            }
            if p.next() != vis.get(lead + n).copied() {
                return Err("left the reader at the wrong character".into());
            }
        }
        (Err(None), Err(_)) => {}
        (Err(Some(k)), Err(e)) => {
            let good = match (vis.get(lead + k), e) {
                (Some(c), ParserError::UnexpectedCharError { chr, pos, .. }) => chr == c && *pos == pos0 + k,
                (None, ParserError::EndOfCharsError { pos }) => *pos == pos0 + k,
                _ => false,
            };
            if !good {
                return Err(format!("failed with {e:?}, expected an error naming {:?} at {}", vis.get(lead + k), pos0 + k));
            }
            // nothing of its kind was there, so nothing was taken
            if *k == 0 && (p.cur_pos() != pos0 || p.next() != vis.get(lead).copied()) {
                return Err("failed but moved the reader".into());
            }
        }
        (w, g) => return Err(format!("gave {g:?}, expected {w:?}")),
    }
    Ok(())
}
fn all(s: &[char], st: &mut Stat) -> Result<(), String> {
    for h in ALL {
        for (lead, start, stop) in [(0, 0, false), (1, 5, true), (0, 3, true)] {
            st.states += 1;
            st.traces += 1;
            st.transitions += s.len() as u64;
            decide(*h, s, lead, start, stop).map_err(|e| {
                format!("{h:?} {e}\ninput {:?}, {lead} characters read before, start position {start}{}", s.iter().collect::<String>(), if stop { ", stopping at '}'" } else { "" })
            })?;
        }
    }
    Ok(())
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let chars = [
            '0', '7', '-', '+', 'a', 'Z', '_', 'é', '٣', '½', ' ', '\n', '\u{a0}', '}', ';', '日', '\u{301}', 'ª', '\\',
        ];
        let k = chars.len() as u64;
        let n = if q { 5 } else { 6 };
        let mut families = vec![];
        families.push(family(
            "texts",
            &format!("all inputs up to length {n} over {k} characters (ASCII, letters, digits and whitespace beyond ASCII), {} helpers, at the start and behind a character, bounded or not", ALL.len()),
            (0..=n).map(|l| k.pow(l)).sum(),
            move |mut i, st| {
                let mut l = 0;
                while i >= k.pow(l) {
                    i -= k.pow(l);
                    l += 1;
                }
                let mut s = vec![];
                for _ in 0..l {
                    s.push(chars[(i % k) as usize]);
                    i /= k;
                }
                all(&s, st)
            },
        ));
        // every character on its own, behind a letter and behind a digit
        families.push(family("unicode", "every Unicode character alone, behind a letter, behind a digit, behind a minus", 0x110000 / 256, |i, st| {
            for c in (i as u32 * 256..i as u32 * 256 + 256).filter_map(char::from_u32) {
                for s in [vec![c], vec!['a', c, '1'], vec!['1', c], vec!['-', c], vec![' ', c]] {
                    all(&s, st)?;
                }
            }
            Ok(())
        }));
        // numbers around the limits
        let mut nums: Vec<String> = vec![];
        let near = if q { 300i128 } else { 3000 };
        for b in [0i128, u32::MAX as i128, i32::MAX as i128, isize::MAX as i128, usize::MAX as i128, 1 << 65, 10 * (usize::MAX as i128)] {
            for d in -near..=near {
                if b + d >= 0 {
                    nums.push((b + d).to_string());
                }
            }
        }
        for e in 0..36 {
            let p = 10i128.pow(e);
            for d in [-1, 0, 1] {
                nums.push((p + d).to_string());
                nums.push((9 * p + d).to_string());
            }
        }
        for l in 1..60 {
            nums.push("9".repeat(l));
            nums.push("1".repeat(l));
        }
        let nums: Vec<String> = nums.into_iter().map(|s| s.trim_start_matches('-').to_string()).collect();
        families.push(family(
            "numbers",
            &format!("all numbers within {near} of 0, 2^31, 2^32, 2^63, 2^64, 2^65, powers of ten and repdigits up to 60 digits; with 0..3 leading zeros, signs, and something behind"),
            nums.len() as u64,
            move |i, st| {
                for z in 0..4 {
                    for sign in ["", "-", "--", "+", "-0-"] {
                        for tail in ["", ";", "a", "-", "٣", ".5", " 1"] {
                            let t = format!("{sign}{}{}{tail}", "0".repeat(z), nums[i as usize]);
                            all(&t.chars().collect::<Vec<_>>(), st)?;
                        }
                    }
                }
                Ok(())
            },
        ));
        families.push(family(
            "huge",
            "tokens of n characters, n around 128, 256, 4096, 32768, 65536 and 70000: whitespace, zeros with and without another digit behind, nines, negative numbers, names; with 5 things behind",
            hx::huge::SIZES.len() as u64 * 8,
            |i, st| {
                let (n, kind) = (hx::huge::SIZES[(i / 8) as usize], i % 8);
                let body: String = match kind {
                    0 => " \n\u{a0}\t".chars().cycle().take(n).collect(),
                    1 => "0".repeat(n),
                    2 => "0".repeat(n) + "905",
                    3 => "9".repeat(n),
                    4 => format!("-{}17", "0".repeat(n)),
                    5 => "a".repeat(n),
                    6 => "日é_1".chars().cycle().take(n).collect(),
                    _ => "x0_".chars().cycle().take(n).collect(),
                };
                for tail in ["", ";", "}", "é", " 1"] {
                    // and behind a character of its own kind that is read before
                    let s: Vec<char> = format!("{body}{tail}").chars().collect();
                    all(&s, st).map_err(|e| format!("{}\n(kind {kind}, {n} characters, then {tail:?})", e.chars().take(300).collect::<String>()))?;
                }
                Ok(())
            },
        ));
        Check {
            id: "C18",
            technique: "exhaustive bounded exploration of inputs x helpers against reference tokenizers",
            assumptions: vec!["what counts as letter, digit of a name, or whitespace is Unicode's classification in Rust's char".into(), "where a failed signed number leaves the reader is left open".into()],
            families,
        }
    })
}
