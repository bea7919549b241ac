//! Reading rule text with the code under test and writing down what grammar it got.
use crate::refread::{made_of, El, RefFile, RefRule};
use crate::vmx::TraceVm;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::{ElementType, ParserData, Production};
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::vms::VM;
use std::collections::{BTreeMap, HashMap, HashSet};

/// name -> (alternatives, number of instructions)
pub type Dump = BTreeMap<String, (Vec<Vec<El>>, usize)>;

pub fn dump<V: VM>(d: &ParserData<V>) -> Result<Dump, String> {
    let el = |ix: usize| -> Result<El, String> {
        let e = d.get_element_verbose(ix).ok_or(format!("element {ix} is not known"))?;
        Ok(match e.et {
            ElementType::Terminal => El::T(e.name),
            ElementType::NonTerminal => El::N(e.name),
        })
    };
    let mut out = Dump::new();
    for (k, r) in d.parse_rules.rules.iter() {
        let El::N(name) = el(*k)? else { return Err(format!("rule {k} is registered as a terminal")) };
        let mut alts = vec![];
        for p in &r.possible_productions {
            alts.push(match &**p {
                Production::Empty => vec![],
                Production::NotEmpty(v) => {
                    if v.is_empty() {
                        return Err(format!("rule {name} has a non-empty alternative without elements"));
                    }
                    v.iter().map(|x| el(*x)).collect::<Result<Vec<El>, String>>()?
                }
            });
        }
        if out.insert(name.clone(), (alts, r.instruction.len())).is_some() {
            return Err(format!("two rules are called {name}"));
        }
    }
    Ok(out)
}

pub struct Read {
    pub dump: Dump,
    pub offered: Vec<(String, String)>,
}
/// Reads a rule file with the tracing VM.
pub fn read_real(text: &str) -> Result<Result<Read, ParserError>, String> {
    let vm = TraceVm::default();
    let r = {
        let mut pk = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut pk, &vm);
        match rp.parse_rules() {
            Err(e) => Err(e),
            Ok(_) => Ok(dump(&rp.parser_data)?),
        }
    };
    let offered = vm.offered.into_inner().unwrap();
    Ok(r.map(|dump| Read { dump, offered }))
}
pub fn want(rules: &[RefRule]) -> Dump {
    rules
        .iter()
        .map(|r| (r.name.clone(), (r.alts.clone(), r.section.as_ref().map(|s| s.trim().parse().unwrap_or(1)).unwrap_or(0))))
        .collect()
}
pub fn show(d: &Dump) -> String {
    d.iter()
        .map(|(n, (a, k))| {
            let alts: Vec<String> = a
                .iter()
                .map(|a| {
                    if a.is_empty() {
                        "#".into()
                    } else {
                        a.iter()
                            .map(|e| match e {
                                El::T(t) => format!("{t:?}"),
                                El::N(n) => n.clone(),
                            })
                            .collect::<Vec<_>>()
                            .join(" ")
                    }
                })
                .collect();
            format!("  {n} -> {} ({k} instructions)\n", alts.join(" | "))
        })
        .collect()
}

/// Whether the property leaves open what is read: an ignorable rule in force that is not (fully)
/// defined.
pub fn undefined_ignorable(f: &RefFile) -> bool {
    if f.rules.iter().all(|r| r.ignore.is_none()) {
        return false;
    }
    let m = f.merged();
    let at: HashMap<&str, &RefRule> = m.iter().map(|r| (r.name.as_str(), r)).collect();
    let igs: HashSet<&str> = m.iter().filter_map(|r| r.ignore.as_deref()).collect();
    igs.into_iter().any(|ig| made_of(&at, ig).1)
}
/// Whether statements about one rule disagree on the ignorable rule or have several sections: which
/// of them counts is left open.
pub fn ambiguous_repeats(f: &RefFile) -> bool {
    let mut before: HashMap<&str, &Option<String>> = HashMap::new();
    f.rules.iter().any(|r| match before.get(r.name.as_str()) {
        None => {
            before.insert(&r.name, &r.ignore);
            false
        }
        Some(ig) => **ig != r.ignore || r.section.is_some(),
    })
}

/// Decides one rule text against what the reference reader makes of it. Returns what was read if
/// both agree that it is well-formed.
pub fn check_text(text: &str, content: bool) -> Result<Option<RefFile>, String> {
    let cs: Vec<char> = text.chars().collect();
    let want_ = crate::refread::read(&cs);
    let got = match crate::run::catch(|| read_real(text)) {
        Err(p) => return Err(format!("{p}\nrule text: {text:?}")),
        Ok(Err(e)) => return Err(format!("inconsistent grammar data: {e}\nrule text: {text:?}")),
        Ok(Ok(g)) => g,
    };
    match (want_, got) {
        (Err(p), Ok(r)) => Err(format!(
            "malformed rule text (at character {p}) was read as\n{}rule text: {text:?}",
            show(&r.dump)
        )),
        (Err(_), Err(_)) => Ok(None),
        (Ok(f), Err(e)) => {
            if undefined_ignorable(&f) {
                Ok(None)
            } else {
                Err(format!("well-formed rule text was refused: {e}\nrule text: {text:?}"))
            }
        }
        (Ok(f), Ok(r)) => {
            if content && !undefined_ignorable(&f) && !ambiguous_repeats(&f) {
                let w = want(&f.woven());
                if w != r.dump {
                    return Err(format!(
                        "rule text was read as\n{}but it spells\n{}rule text: {text:?}",
                        show(&r.dump),
                        show(&w)
                    ));
                }
            }
            Ok(Some(f))
        }
    }
}
