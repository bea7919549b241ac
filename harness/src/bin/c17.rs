//! C17: a bounded reader never passes its stop character and never lies when peeking.
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use hx::run::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Next,
    Peek,
    PeekMut,
    NextIfTrue,
    NextIfFalse,
    /// conditional read for a given character
    Eq(char),
    /// conditional read with a closure that wants a given character
    If(char),
    /// write through peek_mut
    Write(char),
    /// enter or leave a nested reader
    Switch,
}
const SINGLE: &[Op] = &[Op::Next, Op::Peek, Op::PeekMut, Op::NextIfTrue, Op::NextIfFalse, Op::Eq('a'), Op::Eq('}'), Op::If('\\'), Op::Write('}')];
const NESTED: &[Op] = &[Op::Next, Op::Peek, Op::NextIfTrue, Op::NextIfFalse, Op::Eq('}'), Op::Switch];

#[derive(Clone, Copy, Debug)]
struct Conf {
    stop: Option<char>,
    esc: Option<char>,
}
/// Reference: layers over a source. Layer 0 is the source itself.
struct Model {
    src: Vec<char>,
    at: usize,
    layers: Vec<(Conf, bool, usize)>,
}
impl Model {
    fn avail(&self, l: usize) -> Option<char> {
        let c = if l == 0 { self.src.get(self.at).copied()? } else { self.avail(l - 1)? };
        if l > 0 {
            let (f, esc, _) = self.layers[l - 1];
            if Some(c) == f.stop && !esc {
                return None;
            }
        }
        Some(c)
    }
    fn consume(&mut self, l: usize) -> Option<char> {
        let c = self.avail(l)?;
        self.at += 1;
        for (f, esc, pos) in self.layers[..l].iter_mut() {
            *esc = f.esc == Some(c);
            *pos += 1;
        }
        Some(c)
    }
}
/// One call on the reader and on the model; the error says how they differ.
fn call<T: TPeekable<Item = char>>(r: &mut T, m: &mut Model, l: usize, op: Op) -> Result<(), String> {
    let now = m.avail(l);
    let (got, want) = match op {
        Op::Next => (r.next(), m.consume(l)),
        Op::Peek => (r.peek().copied(), now),
        Op::PeekMut => (r.peek_mut().copied(), now),
        Op::NextIfTrue => (r.next_if(|_| true), m.consume(l)),
        Op::NextIfFalse => (r.next_if(|_| false), None),
        Op::Eq(c) => (r.next_if_eq(&c), if now == Some(c) { m.consume(l) } else { None }),
        Op::If(c) => (r.next_if(|x| *x == c), if now == Some(c) { m.consume(l) } else { None }),
        Op::Write(c) => {
            let w = r.peek_mut().map(|x| {
                *x = c;
                c
            });
            if now.is_some() {
                m.src[m.at] = c;
            }
            (w, now.map(|_| c))
        }
        Op::Switch => (None, None),
    };
    if got != want {
        return Err(format!("{op:?} gave {got:?}, expected {want:?}"));
    }
    Ok(())
}
fn pos_ok(got: usize, m: &Model, l: usize) -> Result<(), String> {
    if got != m.layers[l - 1].2 {
        return Err(format!("position {got}, expected {}", m.layers[l - 1].2));
    }
    Ok(())
}
fn single(input: &str, f: Conf, start: Option<usize>, ops: &[Op]) -> Result<(), String> {
    let mut pk = PeekableWrapper::from_str(input);
    let mut m = Model { src: input.chars().collect(), at: 0, layers: vec![(f, false, start.unwrap_or(0))] };
    {
        let mut p = match start {
            None => ParseProcess::new(&mut pk, f.stop, f.esc),
            Some(s) => ParseProcess::new_nested(&mut pk, f.stop, f.esc, s),
        };
        pos_ok(p.cur_pos(), &m, 1)?;
        for (i, o) in ops.iter().enumerate() {
            call(&mut p, &mut m, 1, *o).map_err(|e| format!("{e} at step {i}"))?;
            pos_ok(p.cur_pos(), &m, 1).map_err(|e| format!("{e} after step {i}"))?;
        }
    }
    // the source goes on exactly behind what was consumed
    call(&mut pk, &mut m, 0, Op::Peek).map_err(|e| format!("{e} on the source afterwards"))?;
    call(&mut pk, &mut m, 0, Op::Next).map_err(|e| format!("{e} on the source afterwards"))
}
fn nested(input: &str, f: Conf, g: Conf, ops: &[Op]) -> Result<(), String> {
    let mut pk = PeekableWrapper::from_str(input);
    let mut m = Model { src: input.chars().collect(), at: 0, layers: vec![(f, false, 0)] };
    let mut outer = ParseProcess::new(&mut pk, f.stop, f.esc);
    let mut i = 0;
    loop {
        while i < ops.len() && ops[i] != Op::Switch {
            call(&mut outer, &mut m, 1, ops[i]).map_err(|e| format!("{e} at step {i} (outer)"))?;
            pos_ok(outer.cur_pos(), &m, 1).map_err(|e| format!("{e} after step {i} (outer)"))?;
            i += 1;
        }
        if i >= ops.len() {
            return Ok(());
        }
        i += 1;
        let start = outer.cur_pos();
        m.layers.push((g, false, start));
        let mut inner = ParseProcess::new_nested(&mut outer, g.stop, g.esc, start);
        pos_ok(inner.cur_pos(), &m, 2)?;
        while i < ops.len() && ops[i] != Op::Switch {
            call(&mut inner, &mut m, 2, ops[i]).map_err(|e| format!("{e} at step {i} (nested)"))?;
            pos_ok(inner.cur_pos(), &m, 2).map_err(|e| format!("{e} after step {i} (nested)"))?;
            i += 1;
        }
        m.layers.pop();
        pos_ok(outer.cur_pos(), &m, 1).map_err(|e| format!("{e} after leaving the nested reader"))?;
        if i >= ops.len() {
            return Ok(());
        }
        i += 1;
    }
}
fn digits<T: Copy>(mut i: u64, n: u32, from: &[T]) -> Vec<T> {
    let k = from.len() as u64;
    (0..n)
        .map(|_| {
            let x = from[(i % k) as usize];
            i /= k;
            x
        })
        .collect()
}
fn inputs(chars: &[char], max: u32) -> Vec<String> {
    let k = chars.len() as u64;
    (0..=max).flat_map(|l| (0..k.pow(l)).map(move |i| digits(i, l, chars).into_iter().collect())).collect()
}

fn main() {
    main_check(|tier| {
        let q = tier == Tier::Quick;
        let confs: Vec<Conf> = [None, Some('}'), Some('a'), Some('\\')]
            .into_iter()
            .flat_map(|stop| [None, Some('\\'), Some('a'), Some('}')].into_iter().map(move |esc| Conf { stop, esc }))
            .collect();
        let mut families = vec![];
        let (il, ol) = if q { (4, 5) } else { (5, 6) };
        let ins = inputs(&['a', 'b', '}', '\\'], il);
        let c = confs.clone();
        families.push(family(
            "single",
            &format!("all inputs up to length {il} over a b }} \\, 16 stop/escape settings, all sequences of {ol} calls out of {}", SINGLE.len()),
            ins.len() as u64 * 16,
            move |i, st| {
                let (s, f) = (&ins[(i / 16) as usize], c[(i % 16) as usize]);
                let k = SINGLE.len() as u64;
                for j in 0..k.pow(ol) {
                    let ops = digits(j, ol, SINGLE);
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += ol as u64;
                    let start = if j % 2 == 0 { None } else { Some(7) };
                    match catch(|| single(s, f, start, &ops)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return Err(format!("{e}\ninput {s:?}, {f:?}, calls {ops:?}")),
                        Err(p) => return Err(format!("{p}\ninput {s:?}, {f:?}, calls {ops:?}")),
                    }
                }
                Ok(())
            },
        ));
        let (il, ol) = if q { (4, 6) } else { (5, 7) };
        let ins = inputs(&['a', '}', '\\'], il);
        let outs = [(None, None), (Some('}'), None), (Some('}'), Some('\\')), (Some('a'), Some('\\')), (None, Some('\\'))];
        let inns = [(Some('}'), Some('\\')), (Some('}'), None), (Some('a'), Some('\\')), (None, Some('\\'))];
        families.push(family(
            "nested",
            &format!("a nested reader, entered and left any number of times: all inputs up to length {il} over a }} \\, 20 pairs of settings, all sequences of {ol} calls out of {} (one of them switches)", NESTED.len()),
            ins.len() as u64 * 20,
            move |i, st| {
                let s = &ins[(i / 20) as usize];
                let (o, n) = (outs[(i % 20 / 4) as usize], inns[(i % 4) as usize]);
                let (f, g) = (Conf { stop: o.0, esc: o.1 }, Conf { stop: n.0, esc: n.1 });
                let k = NESTED.len() as u64;
                for j in 0..k.pow(ol) {
                    let ops = digits(j, ol, NESTED);
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += ol as u64;
                    match catch(|| nested(s, f, g, &ops)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return Err(format!("{e}\ninput {s:?}, outer {f:?}, nested {g:?}, calls {ops:?}")),
                        Err(p) => return Err(format!("{p}\ninput {s:?}, outer {f:?}, nested {g:?}, calls {ops:?}")),
                    }
                }
                Ok(())
            },
        ));
        // characters that are easily confused
        const RELATED: &[Op] = &[Op::Next, Op::Peek, Op::Eq('a'), Op::Eq('A'), Op::If('a'), Op::Write('A'), Op::Eq('å')];
        let rconfs: Vec<Conf> = [None, Some('a'), Some('A'), Some('å')]
            .into_iter()
            .flat_map(|stop| [None, Some('a'), Some('A')].into_iter().map(move |esc| Conf { stop, esc }))
            .collect();
        let (il, ol) = if q { (3, 4) } else { (4, 5) };
        let ins = inputs(&['a', 'A', 'å', 'Å', '\u{161}'], il);
        families.push(family(
            "related",
            &format!("all inputs up to length {il} over a A å Å š (š has the low byte of a), 12 settings, all sequences of {ol} calls out of {}", RELATED.len()),
            ins.len() as u64 * 12,
            move |i, st| {
                let (s, f) = (&ins[(i / 12) as usize], rconfs[(i % 12) as usize]);
                for j in 0..(RELATED.len() as u64).pow(ol) {
                    let ops = digits(j, ol, RELATED);
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += ol as u64;
                    match catch(|| single(s, f, None, &ops)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return Err(format!("{e}\ninput {s:?}, {f:?}, calls {ops:?}")),
                        Err(p) => return Err(format!("{p}\ninput {s:?}, {f:?}, calls {ops:?}")),
                    }
                }
                Ok(())
            },
        ));
        // longer inputs, reading through in one style with a peek between any two reads
        let il = if q { 8 } else { 10 };
        let k = 4u64;
        families.push(family(
            "through",
            &format!("all inputs up to length {il} over a é }} \\, 16 settings, read to the end by 6 styles and then beyond"),
            (0..=il).map(|l| k.pow(l)).sum(),
            move |mut i, st| {
                let mut l = 0;
                while i >= k.pow(l) {
                    i -= k.pow(l);
                    l += 1;
                }
                let s: String = digits(i, l, &['a', 'é', '}', '\\']).into_iter().collect();
                for f in &confs {
                    for style in 0..6 {
                        let mut ops = vec![];
                        for _ in 0..l + 2 {
                            match style {
                                0 => ops.push(Op::Next),
                                1 => ops.extend([Op::Peek, Op::Next]),
                                2 => ops.extend([Op::PeekMut, Op::Peek, Op::NextIfTrue]),
                                3 => ops.extend([Op::Eq('a'), Op::Eq('}'), Op::If('\\'), Op::Eq('é')]),
                                4 => ops.extend([Op::NextIfFalse, Op::Next, Op::Peek]),
                                _ => ops.extend([Op::If('a'), Op::If('é'), Op::Next, Op::PeekMut]),
                            }
                        }
                        st.states += 1;
                        st.traces += 1;
                        st.transitions += ops.len() as u64;
                        match catch(|| single(&s, *f, None, &ops)) {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => return Err(format!("{e}\ninput {s:?}, {f:?}, calls {ops:?}")),
                            Err(p) => return Err(format!("{p}\ninput {s:?}, {f:?}, calls {ops:?}")),
                        }
                    }
                }
                Ok(())
            },
        ));
        // inputs and positions past every power of two a counter could be cut to
        let sizes = hx::huge::SIZES;
        let starts: [Option<usize>; 6] = [None, Some(250), Some(65_530), Some((1 << 31) - 2), Some((1 << 32) - 2), Some(1 << 53)];
        let hconfs: Vec<Conf> = [(None, None), (Some('}'), Some('\\')), (Some('}'), None), (None, Some('\\')), (Some(';'), Some('b'))].into_iter().map(|(stop, esc)| Conf { stop, esc }).collect();
        families.push(family(
            "huge",
            "inputs of n characters (one repeated, three in turn, escapes, a stop character at the end or in the middle), n around 128, 256, 4096, 32768, 65536 and 70000; 5 settings, 6 start positions up to 2^53, 6 styles of reading through",
            sizes.len() as u64 * 5 * 6,
            move |i, st| {
                let (n, kind, style) = (sizes[(i / 30) as usize], i / 6 % 5, i % 6);
                let mut s: Vec<char> = match kind {
                    0 => vec!['a'; n],
                    1 => "aé😀".chars().cycle().take(n).collect(),
                    2 => "\\}".chars().cycle().take(n).collect(),
                    3 => vec!['b'; n],
                    _ => "xb\\\\y".chars().cycle().take(n).collect(),
                };
                match kind {
                    1 => s.extend(['}', 'a', '}']),
                    3 => s[n / 2] = '}',
                    4 => s.extend(['\\', '}', 'é']),
                    _ => {}
                }
                let s: String = s.into_iter().collect();
                let mut ops = vec![];
                for _ in 0..n + 5 {
                    match style {
                        0 => ops.push(Op::Next),
                        1 => ops.extend([Op::Peek, Op::Next]),
                        2 => ops.extend([Op::PeekMut, Op::Peek, Op::NextIfTrue]),
                        3 => ops.extend([Op::Eq('a'), Op::Eq('}'), Op::If('\\'), Op::NextIfTrue]),
                        4 => ops.extend([Op::NextIfFalse, Op::Next, Op::Peek]),
                        _ => ops.extend([Op::If('b'), Op::If('é'), Op::Next, Op::PeekMut]),
                    }
                }
                for f in &hconfs {
                    for start in &starts {
                        st.states += 1;
                        st.traces += 1;
                        st.transitions += ops.len() as u64;
                        catch(|| single(&s, *f, *start, &ops))
                            .unwrap_or_else(|p| Err(p.to_string()))
                            .map_err(|e| format!("{e}\ninput of kind {kind} and {n} characters, {f:?}, start {start:?}, style {style}"))?;
                    }
                }
                Ok(())
            },
        ));
        families.push(family(
            "every-character",
            "every Unicode character and its relatives (case, neighbours, characters that agree in some bits) as input, stop and escape character, and in conditional reads and writes: 7 settings, 5 inputs, 4 styles of reading (2 for the long inputs)",
            hx::uni::CHUNKS,
            |i, st| {
                for c in hx::uni::chars_of(i) {
                    let o = if c == '}' { ']' } else { '}' };
                    let rel = hx::uni::relatives(c);
                    let mut ins: Vec<String> = vec![[c, o].iter().collect(), [o, c, 'x'].iter().collect(), [c, c, 'x'].iter().collect()];
                    ins.push(rel.iter().flat_map(|r| [*r, c, 'x']).collect());
                    ins.push(rel.iter().collect());
                    let r = rel[c as usize % rel.len()];
                    for (stop, esc) in [(None, None), (Some(c), None), (Some(c), Some(o)), (Some(o), Some(c)), (None, Some(c)), (Some(r), Some(c)), (Some(c), Some(r))] {
                        for s in &ins {
                            let n = s.chars().count();
                            for style in 0..4 {
                                if n > 3 && style % 2 == 0 {
                                    continue;
                                }
                                let mut ops = vec![];
                                for _ in 0..n + 1 {
                                    match style {
                                        0 => ops.push(Op::Next),
                                        1 => ops.extend([Op::Eq(r), Op::Peek, Op::Eq(c), Op::NextIfTrue]),
                                        2 => ops.extend([Op::If(c), Op::If(r), Op::PeekMut, Op::Next]),
                                        _ => ops.extend([Op::NextIfFalse, Op::Write(c), Op::Peek, Op::Eq(r), Op::Eq(c)]),
                                    }
                                }
                                st.states += 1;
                                st.traces += 1;
                                st.transitions += ops.len() as u64;
                                let f = Conf { stop, esc };
                                catch(|| single(s, f, None, &ops))
                                    .unwrap_or_else(|p| Err(p.to_string()))
                                    .map_err(|e| format!("{e}\ninput {s:?}, {f:?}, calls {ops:?}"))?;
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
        Check {
            id: "C17",
            technique: "exhaustive exploration of call sequences x inputs x settings against a reference reader",
            assumptions: vec!["what counts as 'directly preceded' is what was read through the reader itself".into()],
            families,
        }
    })
}
