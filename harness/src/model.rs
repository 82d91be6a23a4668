//! Reference definitions of the standard-library functions the analyser does not interpret natively.
//! Each is the documented meaning of the function, written as plain loops over `next`/`next_back`.
use std::collections::VecDeque;
use std::fmt::{self, Display, Formatter};
use std::io;
use std::ops::{ControlFlow, Try};

pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            None => return false,
            Some(x) => {
                if f(x) {
                    return true;
                }
            }
        }
    }
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop {
        match it.next() {
            None => return true,
            Some(x) => {
                if !f(x) {
                    return false;
                }
            }
        }
    }
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    loop {
        match it.next() {
            None => return None,
            Some(x) => {
                if f(&x) {
                    return Some(x);
                }
            }
        }
    }
}
pub fn iter_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    loop {
        match it.next_back() {
            None => return None,
            Some(x) => {
                if f(&x) {
                    return Some(x);
                }
            }
        }
    }
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop {
        match it.next() {
            None => return None,
            Some(x) => {
                if let Some(y) = f(x) {
                    return Some(y);
                }
            }
        }
    }
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut n = 0;
    loop {
        match it.next() {
            None => return None,
            Some(x) => {
                if f(x) {
                    return Some(n);
                }
                n += 1;
            }
        }
    }
}
pub fn iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut n = it.len();
    loop {
        match it.next_back() {
            None => return None,
            Some(x) => {
                n -= 1;
                if f(x) {
                    return Some(n);
                }
            }
        }
    }
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    loop {
        match it.next() {
            None => return n,
            Some(_) => n += 1,
        }
    }
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    loop {
        match it.next() {
            None => return l,
            Some(x) => l = Some(x),
        }
    }
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n {
        match it.next() {
            None => return None,
            Some(_) => {}
        }
        i += 1;
    }
    it.next()
}
pub fn iter_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n {
        match it.next_back() {
            None => return None,
            Some(_) => {}
        }
        i += 1;
    }
    it.next_back()
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop {
        match it.next() {
            None => return acc,
            Some(x) => acc = f(acc, x),
        }
    }
}
pub fn iter_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop {
        match it.next_back() {
            None => return acc,
            Some(x) => acc = f(acc, x),
        }
    }
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    loop {
        match it.next() {
            None => return,
            Some(x) => f(x),
        }
    }
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    loop {
        match it.next() {
            None => return R::from_output(acc),
            Some(x) => match f(acc, x).branch() {
                ControlFlow::Continue(a) => acc = a,
                ControlFlow::Break(r) => return R::from_residual(r),
            },
        }
    }
}
pub fn iter_try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    loop {
        match it.next_back() {
            None => return R::from_output(acc),
            Some(x) => match f(acc, x).branch() {
                ControlFlow::Continue(a) => acc = a,
                ControlFlow::Break(r) => return R::from_residual(r),
            },
        }
    }
}
pub fn iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    loop {
        match it.next() {
            None => return R::from_output(()),
            Some(x) => match f(x).branch() {
                ControlFlow::Continue(()) => {}
                ControlFlow::Break(r) => return R::from_residual(r),
            },
        }
    }
}
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut m = match it.next() {
        None => return None,
        Some(x) => x,
    };
    loop {
        match it.next() {
            None => return Some(m),
            Some(x) => {
                if x >= m {
                    m = x;
                }
            }
        }
    }
}
pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut m = match it.next() {
        None => return None,
        Some(x) => x,
    };
    loop {
        match it.next() {
            None => return Some(m),
            Some(x) => {
                if x < m {
                    m = x;
                }
            }
        }
    }
}
pub fn iter_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = match it.next() {
        None => return None,
        Some(x) => x,
    };
    let mut k = f(&m);
    loop {
        match it.next() {
            None => return Some(m),
            Some(x) => {
                let k2 = f(&x);
                if k2 >= k {
                    m = x;
                    k = k2;
                }
            }
        }
    }
}
pub fn iter_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = match it.next() {
        None => return None,
        Some(x) => x,
    };
    let mut k = f(&m);
    loop {
        match it.next() {
            None => return Some(m),
            Some(x) => {
                let k2 = f(&x);
                if k2 < k {
                    m = x;
                    k = k2;
                }
            }
        }
    }
}
pub fn iter_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = match it.next() {
        None => return None,
        Some(x) => x,
    };
    loop {
        match it.next() {
            None => return Some(m),
            Some(x) => {
                if f(&m, &x) != std::cmp::Ordering::Greater {
                    m = x;
                }
            }
        }
    }
}
pub fn iter_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = match it.next() {
        None => return None,
        Some(x) => x,
    };
    loop {
        match it.next() {
            None => return Some(m),
            Some(x) => {
                if f(&m, &x) == std::cmp::Ordering::Greater {
                    m = x;
                }
            }
        }
    }
}
pub fn iter_advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> {
    let mut i = 0;
    while i < n {
        match it.next() {
            None => {
                return match std::num::NonZero::new(n - i) {
                    Some(z) => Err(z),
                    None => Ok(()),
                }
            }
            Some(_) => {}
        }
        i += 1;
    }
    Ok(())
}
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = match it.next() {
        None => return None,
        Some(x) => x,
    };
    loop {
        match it.next() {
            None => return Some(m),
            Some(x) => m = f(m, x),
        }
    }
}
pub fn iter_partition<I: Iterator, B: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (B, B) {
    let mut a = B::default();
    let mut b = B::default();
    loop {
        match it.next() {
            None => return (a, b),
            Some(x) => {
                if f(&x) {
                    a.extend(Some(x));
                } else {
                    b.extend(Some(x));
                }
            }
        }
    }
}
pub fn iter_eq<I: Iterator, J: IntoIterator>(mut it: I, o: J) -> bool
where
    I::Item: PartialEq<J::Item>,
{
    let mut o = o.into_iter();
    loop {
        match (it.next(), o.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => {
                if !(x == y) {
                    return false;
                }
            }
            _ => return false,
        }
    }
}
pub fn iter_ne<I: Iterator, J: IntoIterator>(it: I, o: J) -> bool
where
    I::Item: PartialEq<J::Item>,
{
    !iter_eq(it, o)
}
pub fn iter_sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut n = 0;
    loop {
        match it.next() {
            None => return n,
            Some(x) => n += x,
        }
    }
}
#[allow(dead_code)]
pub struct ZipShadow<A, B> {
    a: A,
    b: B,
    index: usize,
    len: usize,
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut ZipShadow<A, B>) -> Option<(A::Item, B::Item)> {
    match z.a.next() {
        None => None,
        Some(x) => match z.b.next() {
            None => None,
            Some(y) => Some((x, y)),
        },
    }
}
pub fn string_from_chars<I: IntoIterator<Item = char>>(i: I) -> String {
    let mut s = String::new();
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return s,
            Some(x) => s.push(x),
        }
    }
}
pub fn string_from_char_refs<'a, I: IntoIterator<Item = &'a char>>(i: I) -> String {
    let mut s = String::new();
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return s,
            Some(x) => s.push(*x),
        }
    }
}
pub fn string_from_strs<'a, I: IntoIterator<Item = &'a str>>(i: I) -> String {
    let mut s = String::new();
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return s,
            Some(x) => s.push_str(x),
        }
    }
}
pub fn string_from_strings<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut s = String::new();
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return s,
            Some(x) => s.push_str(&x),
        }
    }
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut s = Vec::new();
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return s,
            Some(x) => s.push(x),
        }
    }
}
pub fn vecdeque_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> VecDeque<T> {
    let mut s = VecDeque::new();
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return s,
            Some(x) => s.push_back(x),
        }
    }
}
pub fn string_extend_chars<I: IntoIterator<Item = char>>(s: &mut String, i: I) {
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return,
            Some(x) => s.push(x),
        }
    }
}
pub fn string_extend_char_refs<'a, I: IntoIterator<Item = &'a char>>(s: &mut String, i: I) {
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return,
            Some(x) => s.push(*x),
        }
    }
}
pub fn string_extend_strs<'a, I: IntoIterator<Item = &'a str>>(s: &mut String, i: I) {
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return,
            Some(x) => s.push_str(x),
        }
    }
}
pub fn string_extend_strings<I: IntoIterator<Item = String>>(s: &mut String, i: I) {
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return,
            Some(x) => s.push_str(&x),
        }
    }
}
pub fn vec_extend_refs<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(s: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return,
            Some(x) => s.push(*x),
        }
    }
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(s: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return,
            Some(x) => s.push(x),
        }
    }
}
pub fn vecdeque_extend<T, I: IntoIterator<Item = T>>(s: &mut VecDeque<T>, i: I) {
    let mut it = i.into_iter();
    loop {
        match it.next() {
            None => return,
            Some(x) => s.push_back(x),
        }
    }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    while crate::nondet() {
        let i: usize = crate::nondet();
        if i < v.len() {
            f(&v[i]);
        }
    }
    crate::subsequence(v);
}
pub fn vecdeque_retain<T, F: FnMut(&T) -> bool>(v: &mut VecDeque<T>, mut f: F) {
    while crate::nondet() {
        let i: usize = crate::nondet();
        if i < v.len() {
            f(&v[i]);
        }
    }
    crate::subsequence(v);
}
pub fn string_retain<F: FnMut(char) -> bool>(s: &mut String, mut f: F) {
    let old = std::mem::take(s);
    let mut it = old.chars();
    loop {
        match it.next() {
            None => return,
            Some(c) => {
                if f(c) {
                    s.push(c);
                }
            }
        }
    }
}
pub fn vec_dedup_abs<T>(v: &mut Vec<T>) {
    let empty = v.is_empty();
    crate::subsequence(v);
    crate::assume(v.is_empty() == empty);
}
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i] == v[i - 1] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn display_fmt<T: Display>(x: &T, f: &mut Formatter<'_>) -> fmt::Result {
    x.fmt(f)
}
pub fn io_write_fmt<W: io::Write>(w: &mut W, a: fmt::Arguments<'_>) -> io::Result<()> {
    let s = crate::args_text(&a);
    w.write_all(s.as_bytes())
}
pub fn fmt_write_fmt<W: fmt::Write>(w: &mut W, a: fmt::Arguments<'_>) -> fmt::Result {
    let s = crate::args_text(&a);
    w.write_str(&s)
}
pub fn ne_via_eq<A: PartialEq<B>, B>(a: &A, b: &B) -> bool {
    !(a == b)
}
pub fn string_from_cow(c: std::borrow::Cow<'_, str>) -> String {
    c.into_owned()
}

// ---- files: one handle at a time, what was written to it and whether anything failed ----
const MODE: usize = 0; // 0 none, 1 append, 2 created (truncated), 3 other
const TEXT: usize = 1;
const FAIL: usize = 2;
const PEND: usize = 3;
const OPENS: usize = 4;
const APP: usize = 5;
use crate::{ghost_get, ghost_set, nondet};
use std::fs::{File, OpenOptions};
pub fn fs_init() {
    ghost_set(MODE, 0u8);
    ghost_set(TEXT, String::new());
    ghost_set(FAIL, false);
    ghost_set(PEND, false);
    ghost_set(OPENS, 0usize);
    ghost_set(APP, false);
}
pub fn fs_failed() -> bool { ghost_get(FAIL) }
pub fn fs_pending() -> bool { ghost_get(PEND) }
pub fn fs_mode() -> u8 { ghost_get(MODE) }
pub fn fs_opens() -> usize { ghost_get(OPENS) }
pub fn fs_text() -> String { ghost_get(TEXT) }
pub fn fs_create() -> io::Result<File> {
    if nondet() {
        ghost_set(FAIL, true);
        return Err(nondet());
    }
    ghost_set(MODE, 2u8);
    Ok(nondet())
}
pub fn fs_read_open() -> io::Result<File> {
    if nondet() {
        return Err(nondet());
    }
    Ok(nondet())
}
pub fn fs_opts_new() -> OpenOptions {
    ghost_set(APP, false);
    nondet()
}
pub fn fs_opts_append(o: &mut OpenOptions, b: bool) -> &mut OpenOptions {
    ghost_set(APP, b);
    o
}
pub fn fs_opts_open() -> io::Result<File> {
    if nondet() {
        ghost_set(FAIL, true);
        return Err(nondet());
    }
    if ghost_get::<bool>(APP) {
        ghost_set(MODE, 1u8);
        ghost_set(OPENS, ghost_get::<usize>(OPENS) + 1);
    } else {
        ghost_set(MODE, 3u8);
    }
    Ok(nondet())
}
pub fn fs_write_all(_b: &[u8]) -> io::Result<()> {
    if nondet() {
        ghost_set(FAIL, true);
        return Err(nondet());
    }
    if ghost_get::<u8>(MODE) == 1 {
        let mut t: String = ghost_get(TEXT);
        t.push_str(&crate::bytes_text(_b));
        ghost_set(TEXT, t);
    }
    ghost_set(PEND, true);
    Ok(())
}
pub fn fs_flush() -> io::Result<()> {
    if nondet() {
        ghost_set(FAIL, true);
        return Err(nondet());
    }
    ghost_set(PEND, false);
    Ok(())
}

// ---- searches over plain sequences: some element is tried, or none is left ----
pub fn fast_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    crate::seek(it, n);
    it.next()
}
/// one of the elements
pub fn fast_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(it: I, f: F) -> Option<I::Item> { fast_some(it, f) }
pub fn fast_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(it: I, f: F) -> Option<I::Item> { fast_some(it, f) }
fn fast_some<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(first) => {
            f(&first);
            let k: usize = nondet();
            crate::seek(&mut it, k);
            match it.next() {
                None => Some(first),
                Some(x) => {
                    f(&x);
                    Some(x)
                }
            }
        }
    }
}
pub fn fast_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let k: usize = nondet();
    crate::seek(it, k);
    match it.next() {
        None => None,
        Some(x) => {
            if f(x) {
                Some(k)
            } else {
                crate::seek(it, usize::MAX);
                None
            }
        }
    }
}
pub fn fast_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    let k: usize = nondet();
    crate::seek(it, k);
    match it.next() {
        None => None,
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                crate::seek(it, usize::MAX);
                None
            }
        }
    }
}
pub fn fast_any<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> bool {
    let k: usize = nondet();
    crate::seek(it, k);
    match it.next() {
        None => false,
        Some(x) => f(x),
    }
}
pub fn fast_all<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> bool {
    let k: usize = nondet();
    crate::seek(it, k);
    match it.next() {
        None => true,
        Some(x) => f(x),
    }
}

/// a vector of texts: what is in it is not followed, running the iterator is
pub fn vec_from_iter_abs<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut it = i.into_iter();
    let mut n = 0usize;
    loop {
        match it.next() {
            None => {
                let v: Vec<T> = nondet();
                crate::assume(v.len() == n);
                return v;
            }
            Some(_) => n += 1,
        }
    }
}

pub fn rec_vi(m: &mut liner::Vi, k: liner::Key, ed: &mut crate::Ed) -> io::Result<()> { crate::key::rec_vi(m, k, ed) }
