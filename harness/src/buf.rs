//! Roots on `Buffer`: undo/redo (C03), recording (C04), matching (C13).
use crate::*;
fn data(b: &Buffer) -> &Vec<char> { peek::<Buffer, Vec<char>>(b, "data") }
fn acts(b: &Buffer) -> &Vec<Action> { peek::<Buffer, Vec<Action>>(b, "actions") }
fn undone(b: &Buffer) -> &Vec<Action> { peek::<Buffer, Vec<Action>>(b, "undone_actions") }
fn same(a: &Vec<char>, b: &Vec<char>) -> bool { a[..] == b[..] }

pub fn root_buf_insert(b: &mut Buffer, start: usize, text: &[char]) {
    let n = b.num_chars();
    assume(n < BIG && text.len() < BIG);
    assume(start <= n);
    assume(text.len() > 0);
    let d0 = data(b).clone();
    let k0 = acts(b).len();
    b.insert(start, text);
    check(undone(b).is_empty(), "C04 insert discards the undone changes");
    check(b.num_chars() == n + text.len(), "C03 insert adds exactly the given characters");
    let d1 = data(b).clone();
    check(acts(b).len() == k0 + 1, "C04 the change is recorded as one undoable step");
    let r = b.undo();
    check(r, "C03 undo reports that it undid something");
    check(acts(b).len() == k0, "C03 undo takes back exactly one step");
    check(same(data(b), &d0), "C03 undo of an insertion restores the text exactly");
    let r = b.redo();
    check(r, "C03 redo reports that it redid something");
    check(same(data(b), &d1), "C03 redo of an insertion restores the text exactly");
}
pub fn root_buf_remove(b: &mut Buffer, start: usize, end: usize) {
    let n = b.num_chars();
    assume(n < BIG);
    assume(start <= end && end <= n);
    let d0 = data(b).clone();
    let k0 = acts(b).len();
    let k = b.remove(start, end);
    check(k == end - start, "C03 remove reports the number of characters removed");
    check(undone(b).is_empty(), "C04 remove discards the undone changes");
    let d1 = data(b).clone();
    check(acts(b).len() == k0 + 1, "C04 the change is recorded as one undoable step");
    let r = b.undo();
    check(r, "C03 undo reports that it undid something");
    check(acts(b).len() == k0, "C03 undo takes back exactly one step");
    check(same(data(b), &d0), "C03 undo of a removal restores the text exactly");
    let r = b.redo();
    check(r, "C03 redo reports that it redid something");
    check(same(data(b), &d1), "C03 redo of a removal restores the text exactly");
}
pub fn root_buf_truncate(b: &mut Buffer, k: usize) {
    let n = b.num_chars();
    assume(n < BIG);
    assume(k <= n);
    let d0 = data(b).clone();
    b.truncate(k);
    check(undone(b).is_empty(), "C04 truncate discards the undone changes");
    check(same(data(b), &d0[..k].to_vec()), "C03 truncate keeps the first characters");
    b.undo();
    check(same(data(b), &d0), "C03 undo of a truncation restores the text exactly");
}
pub fn root_buf_copy(b: &mut Buffer, o: &Buffer) {
    assume(b.num_chars() < BIG && o.num_chars() < BIG);
    assume(o.num_chars() > 0);
    let d0 = data(b).clone();
    b.copy_buffer(o);
    check(undone(b).is_empty(), "C04 copy_buffer discards the undone changes");
    check(same(data(b), data(o)), "C03 copy_buffer copies the text exactly");
    b.undo();
    b.undo();
    check(same(data(b), &d0), "C03 undo of a copy restores the text exactly");
}
pub fn root_buf_insert_from(b: &mut Buffer, o: &Buffer) {
    assume(b.num_chars() < BIG && o.num_chars() < BIG);
    assume(o.num_chars() > b.num_chars());
    let d0 = data(b).clone();
    b.insert_from_buffer(o);
    check(undone(b).is_empty(), "C04 insert_from_buffer discards the undone changes");
    b.undo();
    check(same(data(b), &d0), "C03 undo of accepting a suggestion restores the text exactly");
}
pub fn root_buf_group(b: &mut Buffer, p1: usize, p2: usize, text: &[char]) {
    let n = b.num_chars();
    assume(n < BIG && text.len() < BIG && text.len() > 0);
    assume(p1 <= p2 && p2 <= n);
    let d0 = data(b).clone();
    b.start_undo_group();
    b.remove(p1, p2);
    b.insert(p1, text);
    b.end_undo_group();
    let d1 = data(b).clone();
    b.undo();
    check(same(data(b), &d0), "C03 undo of a group restores the text exactly");
    b.redo();
    check(same(data(b), &d1), "C03 redo of a group restores the text exactly");
}
pub fn root_buf_nothing(b: &mut Buffer) {
    assume(acts(b).is_empty());
    let d0 = data(b).clone();
    let r = b.undo();
    check(!r, "C03 undo with nothing to undo reports it");
    check(same(data(b), &d0), "C03 undo with nothing to undo changes nothing");
}
pub fn root_buf_nothing_redo(b: &mut Buffer) {
    assume(undone(b).is_empty());
    let d0 = data(b).clone();
    let r = b.redo();
    check(!r, "C03 redo with nothing to redo reports it");
    check(same(data(b), &d0), "C03 redo with nothing to redo changes nothing");
}
pub fn root_buf_nested(b: &mut Buffer, p1: usize, p2: usize, text: &[char]) {
    let n = b.num_chars();
    assume(n < BIG && text.len() < BIG && text.len() > 0);
    assume(p1 < p2 && p2 <= n);
    let d0 = data(b).clone();
    b.start_undo_group();
    b.remove(p1, p2);
    b.start_undo_group();
    b.insert(p1, text);
    b.end_undo_group();
    b.end_undo_group();
    let d1 = data(b).clone();
    b.undo();
    check(same(data(b), &d0), "C03 undo of nested groups restores the text exactly");
    b.redo();
    check(same(data(b), &d1), "C03 redo of nested groups restores the text exactly");
}
fn buf_two(where_: u8, b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) {
    let n = b.num_chars();
    assume(n < BIG && t1.len() < BIG && t1.len() > 0);
    assume(s1 <= n);
    let d0 = data(b).clone();
    b.insert(s1, t1);
    let d1 = data(b).clone();
    assume(s2 <= b.num_chars() && t2.len() > 0 && t2.len() < BIG);
    assume(match where_ { 0 => s2 < s1, 1 => s2 == s1, 2 => s2 > s1 && s2 < s1 + t1.len(), _ => s2 >= s1 + t1.len() });
    b.insert(s2, t2);
    let d2 = data(b).clone();
    b.undo();
    check(same(data(b), &d1), "C03 undo takes back only the latest change");
    b.undo();
    check(same(data(b), &d0), "C03 a second undo takes back the change before");
    b.redo();
    check(same(data(b), &d1), "C03 redo replays the changes in order");
    b.redo();
    check(same(data(b), &d2), "C03 a second redo replays the next change");
}
fn buf_revert(where_: u8, b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) {
    let n = b.num_chars();
    assume(n < BIG && t1.len() < BIG && t1.len() > 0);
    assume(acts(b).is_empty());
    assume(s1 <= n);
    let d0 = data(b).clone();
    b.insert(s1, t1);
    assume(s2 <= b.num_chars() && t2.len() > 0 && t2.len() < BIG);
    assume(match where_ { 0 => s2 < s1, 1 => s2 == s1, 2 => s2 > s1 && s2 < s1 + t1.len(), _ => s2 >= s1 + t1.len() });
    b.insert(s2, t2);
    let r = b.revert();
    check(r, "C03 revert reports that it undid something");
    check(same(data(b), &d0), "C03 revert restores the original text exactly");
}
pub fn root_buf_two0(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_two(0, b, s1, t1, s2, t2) }
pub fn root_buf_two1(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_two(1, b, s1, t1, s2, t2) }
pub fn root_buf_two2(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_two(2, b, s1, t1, s2, t2) }
pub fn root_buf_two3(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_two(3, b, s1, t1, s2, t2) }
pub fn root_buf_revert0(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_revert(0, b, s1, t1, s2, t2) }
pub fn root_buf_revert1(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_revert(1, b, s1, t1, s2, t2) }
pub fn root_buf_revert2(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_revert(2, b, s1, t1, s2, t2) }
pub fn root_buf_revert3(b: &mut Buffer, s1: usize, t1: &[char], s2: usize, t2: &[char]) { buf_revert(3, b, s1, t1, s2, t2) }
