//! The orders drawn in one execution.
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Schedule {
    /// the choices of the first draws; the later ones take choice 0, insertion order
    Prefix(Vec<u32>),
    /// every draw takes this choice, as far as it exists (modulo)
    Uniform(u32),
}
struct Ctl {
    on: bool,
    schedule: Schedule,
    drawn: Vec<u32>,
    diverged: bool,
}
thread_local! {
    static CTL: RefCell<Ctl> = const { RefCell::new(Ctl { on: false, schedule: Schedule::Uniform(0), drawn: vec![], diverged: false }) };
}
/// How many orders of n elements are tried: all up to 4, beyond that insertion order, its reverse,
/// every rotation and every exchange of neighbours, and each element first.
pub fn orders(n: usize) -> u32 {
    match n {
        0 | 1 => 1,
        2 => 2,
        3 => 6,
        4 => 24,
        n => (2 + (n - 1) + (n - 1) + (n - 3)) as u32,
    }
}
pub fn order(n: usize, k: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if n <= 4 {
        // k-th permutation, 0 the identity
        let mut k = k as usize;
        let mut out = vec![];
        let mut f: usize = (1..n.max(1)).product();
        for left in (1..=n).rev() {
            let p = if left == 1 { 0 } else { k / f };
            out.push(v.remove(p));
            if left > 1 {
                k %= f;
                f /= left - 1;
            }
        }
        return out;
    }
    let k = k as usize;
    if k == 0 {
    } else if k == 1 {
        v.reverse();
    } else if k < 2 + (n - 1) {
        v.rotate_left(k - 1);
    } else if k < 2 + 2 * (n - 1) {
        let i = k - 2 - (n - 1);
        v.swap(i, i + 1);
    } else {
        // element i first; i = 1 would be an exchange of neighbours, i = n-1 a rotation
        let i = k - 2 - 2 * (n - 1) + 2;
        let x = v.remove(i);
        v.insert(0, x);
    }
    v
}
pub(crate) fn draw(n: usize) -> Vec<usize> {
    if n <= 1 {
        return (0..n).collect();
    }
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        if !c.on {
            return (0..n).collect();
        }
        let m = orders(n);
        let i = c.drawn.len();
        let k = match &c.schedule {
            Schedule::Prefix(p) => p.get(i).copied().unwrap_or(0),
            Schedule::Uniform(u) => u % m,
        };
        if k >= m {
            c.diverged = true;
        }
        c.drawn.push(m);
        order(n, k % m)
    })
}
/// Sets the schedule of the next execution.
pub fn start(s: Schedule) {
    CTL.with(|c| *c.borrow_mut() = Ctl { on: false, schedule: s, drawn: vec![], diverged: false });
}
/// The number of choices at each draw since `start`; None if the schedule did not fit.
pub fn finish() -> Option<Vec<u32>> {
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        c.on = false;
        let short = matches!(&c.schedule, Schedule::Prefix(p) if p.len() > c.drawn.len());
        if c.diverged || short {
            None
        } else {
            Some(std::mem::take(&mut c.drawn))
        }
    })
}
/// Runs code whose draws are controlled.
pub fn on<R>(f: impl FnOnce() -> R) -> R {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            CTL.with(|c| c.borrow_mut().on = self.0);
        }
    }
    let _o = Off(CTL.with(|c| std::mem::replace(&mut c.borrow_mut().on, true)));
    f()
}

#[cfg(test)]
mod tests {
    #[test]
    fn orders_are_distinct_permutations() {
        for n in 0..9 {
            let all: std::collections::BTreeSet<Vec<usize>> = (0..super::orders(n)).map(|k| super::order(n, k)).collect();
            assert_eq!(all.len(), super::orders(n) as usize, "{n}");
            assert_eq!(super::order(n, 0), (0..n).collect::<Vec<_>>());
            for o in all {
                let mut s = o.clone();
                s.sort();
                assert_eq!(s, (0..n).collect::<Vec<_>>());
            }
        }
    }
}
