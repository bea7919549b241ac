//! Blocks are kept per thread: eight workers that allocate all the time otherwise wait for each
//! other in the system's allocator. Every block comes from there, in one of a few sizes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::ptr::null_mut;

const CLASSES: usize = 40;
const TOP: usize = 1 << 13;
const KEEP: u32 = 4096;

struct Lists(UnsafeCell<[(*mut u8, u32); CLASSES]>);
impl Drop for Lists {
    fn drop(&mut self) {
        for (k, (head, _)) in self.0.get_mut().iter_mut().enumerate() {
            let l = layout(k);
            while !head.is_null() {
                unsafe {
                    let next = *(*head as *mut *mut u8);
                    System.dealloc(*head, l);
                    *head = next;
                }
            }
        }
    }
}
thread_local! {
    static LISTS: Lists = const { Lists(UnsafeCell::new([(null_mut(), 0); CLASSES])) };
}
/// Sizes 16, 32, 48, 64, then four steps to each doubling.
fn class(size: usize) -> usize {
    if size <= 64 {
        return size.saturating_sub(1) / 16;
    }
    let s = size - 1;
    let e = usize::BITS - 1 - s.leading_zeros(); // 2^e <= s
    4 + (e as usize - 6) * 4 + (s >> (e - 2) & 3)
}
fn layout(class: usize) -> Layout {
    let size = if class < 4 {
        16 * (class + 1)
    } else {
        let e = (class - 4) / 4 + 6;
        (1 << e) + ((class - 4) % 4 + 1) * (1 << (e - 2))
    };
    unsafe { Layout::from_size_align_unchecked(size, 16) }
}
fn small(l: Layout) -> bool {
    l.size() <= TOP && l.align() <= 16
}

pub struct Kept;
unsafe impl GlobalAlloc for Kept {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !small(l) {
            return System.alloc(l);
        }
        let k = class(l.size());
        let p = LISTS.try_with(|x| {
            let e = &mut (*x.0.get())[k];
            let p = e.0;
            if !p.is_null() {
                *e = (*(p as *mut *mut u8), e.1 - 1);
            }
            p
        });
        match p {
            Ok(p) if !p.is_null() => p,
            _ => System.alloc(layout(k)),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !small(l) {
            return System.dealloc(p, l);
        }
        let k = class(l.size());
        let kept = LISTS.try_with(|x| {
            let e = &mut (*x.0.get())[k];
            if e.1 >= KEEP {
                return false;
            }
            *(p as *mut *mut u8) = e.0;
            *e = (p, e.1 + 1);
            true
        });
        if kept != Ok(true) {
            System.dealloc(p, layout(k));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let new = Layout::from_size_align_unchecked(n, l.align());
        match (small(l), small(new)) {
            (false, false) => System.realloc(p, l, n),
            (true, true) if class(l.size()) == class(n) => p,
            _ => {
                let q = self.alloc(new);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
#[global_allocator]
static A: Kept = Kept;

#[cfg(test)]
#[test]
fn sizes() {
    for s in 0..=TOP {
        let k = class(s);
        assert!(k < CLASSES && layout(k).size() >= s.max(16) && (k == 0 || layout(k - 1).size() < s));
    }
}
