//! Realistic grammars with sentences; every script at edit distance one from a sentence is tried.
use crate::gram::{Gram, An};
use crate::gram::{analyse};

pub struct Real {
    pub name: &'static str,
    pub text: String,
    pub sentences: Vec<String>,
}
fn alt_list(cs: &str) -> String {
    cs.chars().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(" | ")
}

pub fn real() -> Vec<Real> {
    let mut v = vec![];
    let mut add = |name, text: String, s: &[&str]| {
        v.push(Real { name, text, sentences: s.iter().map(|x| x.to_string()).collect() })
    };
    add(
        "arith",
        "start -> expr; expr -> term expr_s; expr_s -> \"+\" term expr_s | \"-\" term expr_s | #;
         term -> factor term_s; term_s -> \"*\" factor term_s | #; factor -> \"(\" expr \")\" | num {2};
         num -> digit num_s {}; num_s -> digit num_s | # {}; digit -> \"0\" | \"1\" | \"7\" {};"
            .into(),
        &["0", "1+7*(0-11)", "((((7))))", "1*1*1*1*1-7", "7-(1+(0*(1+1)))"],
    );
    add(
        "json",
        "value -> obj | arr | str | num | \"true\" | \"false\" | \"null\" {}; start -> ws value ws {};
         ws -> \" \" ws | #; obj -> \"{\" ws members \"}\" {}; members -> pair pairs | #; pairs -> \",\" ws pair pairs | #;
         pair -> str ws \":\" ws value ws {}; arr -> \"[\" ws elems \"]\" {}; elems -> value ws more | #;
         more -> \",\" ws value ws more | #; str -> \"'\" chars \"'\" {}; chars -> ch chars | #; ch -> \"a\" | \"é\" | \"b\";
         num -> \"1\" digits | \"2\" digits {}; digits -> \"1\" digits | \"2\" digits | #;"
            .into(),
        &["null", "{}", "[1,2, 'é']", " { 'a' : [ true , false ] , 'b':{'a':null}} ", "[[[]],[{}]]", "'aébé'"],
    );
    add(
        "sexpr",
        "start -> list; list -> item list | #; item -> \"(\" list \")\" {} | atom; atom -> \"x\" {} | \"yy\" {} ;".replace("{} |", "|"),
        &["", "x", "(x(yy)())x", "((((()))))", "()()()()()"],
    );
    add(
        "stmts",
        "start -> stmt start | #; stmt -> \"if \" cond \" then \" block opt {3} ; opt -> \" else \" block | #;
         block -> \"{\" start \"}\" {}; cond -> \"p\" rel | \"!\" cond {}; rel -> \"=\" \"q\" | #;
         stmt -> \"let \" \"v\" \"=\" cond \";\" ;"
            .into(),
        &["let v=p;", "if !!p then {}", "if p=q then {let v=!p;} else {if p then {}}", "let v=p;let v=!!!p=q;if p then {}"],
    );
    add(
        "calc",
        format!(
            "start -> terms; terms -> term terms_s; terms_s -> whitespace term terms_s | #; term -> add|sub|number|print;
             print -> \"print\" {{}}; add -> \"+\" {{}}; sub -> \"-\" {{}}; number -> digit number_s {{}}; number_s -> number_s_ | # {{}};
             number_s_ -> digit number_s {{}}; digit -> {} {{}}; whitespace -> \" \";",
            alt_list("0123456789")
        ),
        &["1", "1 2 + 3 - print", "print print", "1234567890 - -", "+ + +"],
    );
    add(
        "nullables",
        "start -> a b c d e; a -> \"1\" a | #; b -> \"2\" b | #; c -> \"3\" c | #; d -> b2 \"4\" | #; b2 -> x y; x -> \"5\" | #; y -> \"6\" | #; e -> \"7\" {} ;".into(),
        &["7", "1237", "1122334 7".trim_end_matches(" 7"), "56 47".trim_end_matches(" 47"), "23347", "15647", "11222333567".trim_end_matches("567"), "15 47".trim_end_matches(" 47"), "1235647"],
    );
    add(
        "unicode",
        "start -> wort leer start | #; wort -> \"größe\" | \"日本語\" | \"😀😀\" {}; leer -> \" \" | \"\u{a0}\" | \"\n\" {};".into(),
        &["", "größe ", "日本語\u{a0}😀😀\n", "größe 日本語 größe\n"],
    );
    add(
        "ignored",
        "$IGNORE: ws; start -> \"a\" item \"z\" {}; item -> \"b\" \",\" \"c\" | \"(\" item \")\" {} ; ws -> \" \" ws | #;".into(),
        &["ab,cz", "a b , c z", "a  (b ,c  ) z", "a((b,c) )z"],
    );
    v
}

/// Edits of a script: itself, every truncation, deletion, substitution and insertion of one
/// character of `sigma`.
pub fn edits(s: &[char], sigma: &[char]) -> Vec<Vec<char>> {
    let mut out = vec![s.to_vec()];
    for i in 0..s.len() {
        out.push(s[..i].to_vec());
        let mut d = s.to_vec();
        d.remove(i);
        out.push(d);
        for c in sigma {
            if s[i] != *c {
                let mut d = s.to_vec();
                d[i] = *c;
                out.push(d);
            }
        }
    }
    for i in 0..=s.len() {
        for c in sigma {
            let mut d = s.to_vec();
            d.insert(i, *c);
            out.push(d);
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn with_gram(r: &Real) -> (Gram, An) {
    let g = crate::refread::gram_of(&r.text);
    let an = analyse(&g);
    assert!(an.ll1(), "{} is meant to be LL(1)", r.name);
    (g, an)
}
