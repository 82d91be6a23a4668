#![feature(try_trait_v2)]
#![allow(dead_code)]
pub mod contract;
pub mod model;
pub mod buf;
pub mod hist;
pub mod edit;
pub mod key;
pub mod reach;
pub mod misc;
use liner::*;
use std::io;
use std::fmt;

#[inline(never)]
pub fn nondet<T>() -> T { loop {} }
#[inline(never)]
pub fn assume(_c: bool) {}
#[inline(never)]
pub fn check(_c: bool, _what: &str) {}
#[inline(never)]
pub fn ghost_get<T>(_i: usize) -> T { loop {} }
#[inline(never)]
pub fn ghost_set<T>(_i: usize, _v: T) {}
#[inline(never)]
pub fn peek<'a, S, F>(_s: &'a S, _f: &str) -> &'a F { loop {} }
#[inline(never)]
pub fn poke<'a, S, F>(_s: &'a mut S, _f: &str) -> &'a mut F { loop {} }
#[inline(never)]
pub fn assume_each<T, F: Fn(&T) -> bool>(_v: &Vec<T>, _f: F) {}
#[inline(never)]
pub fn assume_ordered(_v: &Vec<(usize, usize)>) {}
#[inline(never)]
pub fn is_ordered(_v: &Vec<(usize, usize)>) -> bool { loop {} }
#[inline(never)]
pub fn partition<F>(_f: &F) {}
/// a copy of the value
#[inline(never)]
pub fn copy<T>(_v: &T) -> T { loop {} }
/// true only if the two are the same value, represented identically; false says nothing
#[inline(never)]
pub fn same<T>(_a: &T, _b: &T) -> bool { loop {} }
#[inline(never)]
pub fn merge_point() {}
/// calls a function of the crate that is not public; `G` holds its type parameters
#[inline(never)]
pub fn private<G, A, R>(_name: &str, _args: A) -> R { loop {} }
/// the analysis of the root is repeated for every value below `n`; `i` numbers the digits of the case
#[inline(never)]
pub fn case(_i: usize, _n: usize) -> usize { loop {} }
#[inline(never)]
pub fn is_tainted() -> bool { loop {} }
#[inline(never)]
pub fn show<T>(_v: T) {}
#[inline(never)]
pub fn args_text(_a: &fmt::Arguments<'_>) -> String { loop {} }

#[inline(never)]
pub fn subsequence<C>(_c: &mut C) {}
#[inline(never)]
pub fn position<T>(_x: &T) -> usize { loop {} }
#[inline(never)]
pub fn seek<I>(_i: &mut I, _n: usize) {}
#[inline(never)]
pub fn bytes_text(_b: &[u8]) -> String { loop {} }

pub struct VTty(u8);
impl io::Write for VTty {
    fn write(&mut self, _b: &[u8]) -> io::Result<usize> {
        edit::tty_pending(true);
        if nondet() {
            edit::tty_fail();
            return Err(nondet());
        }
        Ok(nondet())
    }
    fn flush(&mut self) -> io::Result<()> {
        if nondet() {
            edit::tty_fail();
            return Err(nondet());
        }
        edit::tty_pending(false);
        Ok(())
    }
    fn write_all(&mut self, _b: &[u8]) -> io::Result<()> {
        edit::tty_pending(true);
        if nondet() {
            edit::tty_fail();
            return Err(nondet());
        }
        Ok(())
    }
}
impl Tty for VTty {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        misc::asked();
        if nondet() {
            edit::tty_fail();
            return Some(Err(nondet()));
        }
        if nondet() {
            misc::no_more();
            return None;
        }
        Some(Ok(nondet()))
    }
    fn width(&self) -> io::Result<usize> {
        // (asking for the size is neither a read nor a write)
        if nondet() {
            return Err(nondet());
        }
        let n: usize = nondet();
        assume(n < BIG);
        Ok(n)
    }
}
pub struct VCtx { pub history: History, pub tty: VTty }
impl fmt::Write for VCtx {
    fn write_str(&mut self, _s: &str) -> fmt::Result {
        edit::tty_pending(true);
        if nondet() {
            edit::tty_fail();
            return Err(fmt::Error);
        }
        Ok(())
    }
}
impl EditorContext for VCtx {
    type Terminal = VTty;
    type WordDividerIter = std::vec::IntoIter<(usize, usize)>;
    fn history(&self) -> &History { &self.history }
    fn history_mut(&mut self) -> &mut History { &mut self.history }
    fn word_divider(&self, b: &Buffer) -> Self::WordDividerIter {
        let v: Vec<(usize, usize)> = nondet();
        let n = b.num_chars();
        assume_each(&v, |p| p.0 < p.1);
        assume_each(&v, |p| p.1 <= n);
        assume_ordered(&v);
        v.into_iter()
    }
    fn terminal(&self) -> &VTty { &self.tty }
    fn terminal_mut(&mut self) -> &mut VTty { &mut self.tty }
    fn key_bindings(&self) -> KeyBindings { nondet() }
}
pub struct VComp(u8);
impl Completer for VComp {
    fn completions(&mut self, _s: &str) -> Vec<String> { nondet() }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        edit::event(&e.kind, e.editor);
        key::event(&e.kind, e.editor);
    }
}

pub type Ed = Editor<VCtx>;
pub const BIG: usize = 1 << 40;

pub fn hist_loc_ok(ed: &Ed) -> bool {
    match ed.current_history_location() {
        Some(i) => i < ed.context().history.len(),
        None => true,
    }
}
pub fn subset_loc_ok(ed: &Ed) -> bool {
    match *peek::<Ed, Option<usize>>(ed, "history_subset_loc") {
        Some(i) => i < peek::<Ed, Vec<usize>>(ed, "history_subset_index").len(),
        None => true,
    }
}
pub fn cursor_ok(ed: &Ed) -> bool {
    ed.cursor() <= ed.current_buffer().num_chars()
}
pub fn hint_ok(ed: &Ed) -> bool {
    match peek::<Ed, Option<(Vec<String>, Option<usize>)>>(ed, "show_completions_hint") {
        Some((v, Some(i))) => *i < v.len(),
        Some((v, None)) => v.len() > 0,
        None => true,
    }
}
/// An arbitrary editor that satisfies the invariant, one shape at a time.
pub fn assume_inv(ed: &Ed) {
    partition(peek::<Ed, Option<usize>>(ed, "cur_history_loc"));
    partition(peek::<Ed, bool>(ed, "hist_buf_valid"));
    partition(peek::<Ed, Option<usize>>(ed, "history_subset_loc"));
    partition(peek::<Ed, Option<(Vec<String>, Option<usize>)>>(ed, "show_completions_hint"));
    let n = ed.context().history.len();
    assume(n < BIG);
    shape(ed);
    assume(inv(ed));
    assume(ed.current_buffer().num_chars() < BIG);
    assume_each(peek::<Ed, Vec<usize>>(ed, "history_subset_index"), |x| *x < n);
}
/// the same without what only search, suggestions and completions depend on
pub fn assume_inv_light(ed: &Ed) {
    partition(peek::<Ed, Option<usize>>(ed, "cur_history_loc"));
    partition(peek::<Ed, bool>(ed, "hist_buf_valid"));
    let n = ed.context().history.len();
    assume(n < BIG);
    shape_light(ed);
    assume(hist_loc_ok(ed) && cursor_ok(ed) && search_ok(ed));
    assume(ed.current_buffer().num_chars() < BIG);
    assume_each(peek::<Ed, Vec<usize>>(ed, "history_subset_index"), |x| *x < n);
}
pub fn assume_inv_vi(ed: &Ed) {
    partition(peek::<Ed, Option<usize>>(ed, "cur_history_loc"));
    partition(peek::<Ed, bool>(ed, "hist_buf_valid"));
    let n = ed.context().history.len();
    assume(n < BIG);
    assume(hist_loc_ok(ed) && cursor_ok(ed) && search_ok(ed));
    assume(ed.current_buffer().num_chars() < BIG);
    assume_each(peek::<Ed, Vec<usize>>(ed, "history_subset_index"), |x| *x < n);
}
pub fn shape_vi(ed: &Ed) {
    let valid = *peek::<Ed, bool>(ed, "hist_buf_valid");
    partition(&ed.context().history.share);
    match case(0, 3) {
        0 => assume(ed.current_history_location().is_none()),
        1 => assume(ed.current_history_location().is_some() && !valid),
        _ => assume(ed.current_history_location().is_some() && valid),
    }
}
/// one shape at a time
pub fn shape_light(ed: &Ed) {
    let valid = *peek::<Ed, bool>(ed, "hist_buf_valid");
    match case(0, 4) {
        0 => assume(ed.current_history_location().is_none() && !valid),
        1 => assume(ed.current_history_location().is_none() && valid),
        2 => assume(ed.current_history_location().is_some() && !valid),
        _ => assume(ed.current_history_location().is_some() && valid),
    }
    let (rev, fwd) = (*peek::<Ed, bool>(ed, "reverse_search"), *peek::<Ed, bool>(ed, "forward_search"));
    match case(1, 3) {
        0 => assume(!rev && !fwd),
        1 => assume(rev && !fwd),
        _ => assume(!rev && fwd),
    }
}
pub fn shape(ed: &Ed) {
    shape_light(ed);
    let loc = *peek::<Ed, Option<usize>>(ed, "history_subset_loc");
    match case(2, 2) {
        0 => assume(loc.is_none()),
        _ => assume(loc.is_some()),
    }
    let hint = peek::<Ed, Option<(Vec<String>, Option<usize>)>>(ed, "show_completions_hint");
    match case(3, 3) {
        0 => assume(hint.is_none()),
        1 => assume(hint_sel(ed) == 1),
        _ => assume(hint_sel(ed) == 2),
    }
}
pub fn hint_sel(ed: &Ed) -> u8 {
    match peek::<Ed, Option<(Vec<String>, Option<usize>)>>(ed, "show_completions_hint") {
        Some((_, Some(_))) => 2,
        Some((_, None)) => 1,
        None => 0,
    }
}
pub fn inv(ed: &Ed) -> bool {
    hist_loc_ok(ed) && cursor_ok(ed) && subset_loc_ok(ed) && hint_ok(ed) && search_ok(ed) && sugg_ok(ed)
}
/// outside of a search what is suggested is at least as long as the line
pub fn sugg_ok(ed: &Ed) -> bool {
    match peek::<Ed, Option<Buffer>>(ed, "autosuggestion") {
        Some(x) => is_search(ed) || ed.current_buffer().num_chars() <= x.num_chars(),
        None => true,
    }
}
/// while searching, the line being edited is the new one
pub fn search_ok(ed: &Ed) -> bool {
    let (r, f) = (*peek::<Ed, bool>(ed, "reverse_search"), *peek::<Ed, bool>(ed, "forward_search"));
    !(r && f) && (ed.current_history_location().is_none() || !(r || f))
}
pub fn is_search(ed: &Ed) -> bool { *peek::<Ed, bool>(ed, "reverse_search") || *peek::<Ed, bool>(ed, "forward_search") }
pub fn check_inv(ed: &Ed) {
    check(hist_loc_ok(ed), "C01 history location in range after the call");
    check(cursor_ok(ed), "C02 cursor within the text after the call");
    check(subset_loc_ok(ed), "C01 search location in range after the call");
    check(search_ok(ed), "C06 a search is over the new line");
    check(sugg_ok(ed), "C01 the suggestion is as long as the line after the call");
    check(hint_ok(ed), "C01 highlighted completion in range after the call");
    let v = peek::<Ed, Vec<usize>>(ed, "history_subset_index");
    let k: usize = nondet();
    if k < v.len() {
        check(v[k] < ed.context().history.len(), "C01 search results in range after the call");
    }
}
pub fn root_def_history_search_index(h: &History, b: &Buffer) {
    let v = h.search_index(b);
    let k: usize = nondet();
    assume(k < v.len());
    check(v[k] < h.len(), "C13 matching positions are in range");
}
pub fn root_def_history_get_history_subset(h: &History, b: &Buffer) {
    let v = h.get_history_subset(b);
    let k: usize = nondet();
    assume(k < v.len());
    check(v[k] < h.len(), "C13 matching positions are in range");
}
pub fn root_def_history_get_newest_match(h: &History, p: Option<usize>, b: &Buffer) {
    if let Some(i) = h.get_newest_match(p, b) {
        check(i < h.len(), "C13 matching positions are in range");
        check(b.num_chars() < h.buffers[i].num_chars(), "C13 a suggested entry is longer than the text");
    }
}
pub fn root_def_cursorposition_get(cursor: usize, v: Vec<(usize, usize)>) {
    assume_each(&v, |p| p.0 < p.1);
    assume_ordered(&v);
    let n = v.len();
    match CursorPosition::get(cursor, v.clone().into_iter()) {
        CursorPosition::InWord(i) => check(i < n && v[i].0 < cursor && cursor < v[i].1, "C01 the cursor is in the word"),
        CursorPosition::OnWordLeftEdge(i) => {
            check(i < n && v[i].0 == cursor, "C01 the cursor is on the left edge");
            check(i == 0 || v[i - 1].0 < cursor, "C01 the word before is to the left");
        }
        CursorPosition::OnWordRightEdge(i) => check(i < n && v[i].1 == cursor && v[i].0 < cursor, "C01 the cursor is on the right edge"),
        CursorPosition::InSpace(Some(i), Some(j)) => check(i + 1 == j && j < n && cursor < v[j].0, "C01 the cursor is before the word to the right"),
        CursorPosition::InSpace(None, Some(j)) => check(j == 0 && n > 0 && cursor < v[0].0, "C01 the cursor is before the first word"),
        // that the last word ends before the cursor is not established here
        CursorPosition::InSpace(Some(i), None) => check(i + 1 == n, "C01 the word to the left is the last one"),
        CursorPosition::InSpace(None, None) => check(n == 0, "C01 there is no word"),
    }
}
// ---- helpers of the redraw
pub fn root_def_util_last_prompt_line_width(s: &str) {
    let w: usize = private::<(&str,), _, _>("util_last_prompt_line_width", (s,));
    check(w < 4 * BIG, "C01 the width of the prompt is in range");
}
pub fn root_def_buffer_range_width(b: &Buffer, x: usize, y: usize) {
    assume(x <= y && y <= b.num_chars());
    let w = b.range_width(x, y);
    let k: usize = nondet();
    assume(k < w.len());
    check(w[k] < 4 * BIG, "C01 the width of a line is in range");
}
pub fn root_def_buffer_lines(b: &Buffer) {
    assume(b.num_chars() < BIG);
    let l = b.lines();
    check(l.len() > 0, "C07 a text has at least one line");
}
pub fn root_def_display_impl_calc_width(p: usize, w: Vec<usize>, t: usize) {
    assume(t > 0 && t < BIG && p < BIG);
    assume_each(&w, |x| *x < 4 * BIG);
    let _: usize = private::<(VCtx,), _, _>("display_impl_calc_width", (p, &w[..], t));
}
pub fn root_def_editor_print_completion_list(c: Vec<String>, h: Option<usize>, w: usize) {
    assume(w < BIG && c.len() < BIG);
    let mut s = String::new();
    let r: io::Result<usize> = private::<(VCtx,), _, _>("editor_print_completion_list", (&c[..], h, w, &mut s));
    match r {
        Ok(n) => check(n <= c.len(), "C01 the number of lines of the completion list is in range"),
        Err(_) => check(false, "C08 listing completions in memory does not fail"),
    }
}
pub fn root_def_util_find_longest_common_prefix(a: &[Vec<char>]) {
    let _: Option<Vec<char>> = private::<(char,), _, _>("util_find_longest_common_prefix", (a,));
}
