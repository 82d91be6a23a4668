//! What the callers of these functions may rely on.  Each is established separately by the root
//! `root_def_<name>`, where the body of the function itself is analysed.
use crate::*;

/// Redraw: clamps the cursor, leaves everything else alone, writes to the terminal and flushes it.
pub fn editor_display_impl(ed: &mut Ed, _s: bool) -> io::Result<()> {
    check(hist_loc_ok(ed), "C01 redraw is only asked for with a valid history location");
    let n = ed.current_buffer().num_chars();
    let c = poke::<Ed, usize>(ed, "cursor");
    if n < *c {
        *c = n;
    }
    if ed.no_eol && ed.cursor() != 0 && ed.cursor() == n {
        *poke::<Ed, usize>(ed, "cursor") -= 1;
    }
    *poke::<Ed, usize>(ed, "term_cursor_line") = nondet();
    if nondet() {
        edit::tty_fail();
        return Err(nondet());
    }
    edit::tty_pending(false);
    edit::tty_shown(ed.cursor(), edit::chars(ed.current_buffer()).clone());
    Ok(())
}
/// Redraw, after bringing a search up to date with the text and choosing what to suggest.
pub fn editor_display(ed: &mut Ed) -> io::Result<()> {
    if edit::is_lite() {
        return key::lite_display(ed);
    }
    check(search_ok(ed), "C06 a search is over the new line");
    if is_search(ed) && *peek::<Ed, bool>(ed, "buffer_changed") {
        let n = ed.context().history.len();
        let v: Vec<usize> = nondet();
        assume(v.len() <= n);
        assume_each(&v, |x| *x < n);
        edit::set_results(ed, v, nondet());
        *poke::<Ed, Option<usize>>(ed, "cur_history_loc") = None;
        *poke::<Ed, bool>(ed, "hist_buf_valid") = false;
        *poke::<Ed, bool>(ed, "buffer_changed") = false;
    }
    edit::set_sugg(ed);
    editor_display_impl(ed, true)
}
pub fn history_search_index(h: &History, _b: &Buffer) -> Vec<usize> {
    let v: Vec<usize> = nondet();
    let n = h.len();
    assume(v.len() <= n);
    assume_each(&v, |x| *x < n);
    v
}
pub fn history_get_history_subset(h: &History, _b: &Buffer) -> Vec<usize> {
    let v: Vec<usize> = nondet();
    let n = h.len();
    assume(v.len() <= n);
    assume_each(&v, |x| *x < n);
    v
}
pub fn history_get_newest_match(h: &History, p: Option<usize>, _b: &Buffer) -> Option<usize> {
    let v: Option<usize> = nondet();
    if let Some(i) = v {
        assume(i < h.len());
        if let Some(p) = p {
            assume(i < p);
        }
        assume(_b.num_chars() < h.buffers[i].num_chars());
    }
    ghost_set(misc::NEWEST, Some(v));
    v
}
/// Removes some entries, keeps the order of the rest.
pub fn history_remove_duplicates(h: &mut History, _s: &str) {
    subsequence(&mut h.buffers);
}
/// The entries become arbitrary ones within the limit.
pub fn history_load_history(h: &mut History, _append: bool) -> io::Result<u64> {
    let v: std::collections::VecDeque<Buffer> = nondet();
    assume(v.len() <= *peek::<History, usize>(h, "max_buffers_size"));
    h.buffers = v;
    let n: u64 = nondet();
    h.file_size = n;
    nondet()
}

/// The text becomes one that was in the history of the buffer; the buffer reports whether there was anything to undo.
fn rewind(b: &mut Buffer) -> bool {
    if nondet() {
        return false;
    }
    let v: Vec<char> = nondet();
    assume(v.len() < BIG);
    *poke::<Buffer, Vec<char>>(b, "data") = v;
    true
}
pub fn buffer_undo(b: &mut Buffer) -> bool { rewind(b) }
pub fn buffer_redo(b: &mut Buffer) -> bool { rewind(b) }
pub fn buffer_revert(b: &mut Buffer) -> bool { rewind(b) }
/// Where the cursor is, relative to words that are ordered and disjoint.
pub fn cursorposition_get(cursor: usize, words: std::vec::IntoIter<(usize, usize)>) -> CursorPosition {
    let v: Vec<(usize, usize)> = words.collect();
    let r: CursorPosition = nondet();
    match r {
        CursorPosition::InWord(i) => assume(i < v.len() && v[i].0 < cursor && cursor < v[i].1),
        CursorPosition::OnWordLeftEdge(i) => assume(i < v.len() && v[i].0 == cursor && (i == 0 || v[i - 1].0 < cursor)),
        CursorPosition::OnWordRightEdge(i) => assume(i < v.len() && v[i].1 == cursor && v[i].0 < cursor),
        CursorPosition::InSpace(Some(i), Some(j)) => assume(i + 1 == j && j < v.len() && cursor < v[j].0 && v[i].1 < cursor && v[i].0 < cursor),
        CursorPosition::InSpace(None, Some(j)) => assume(j == 0 && v.len() > 0 && cursor < v[0].0),
        CursorPosition::InSpace(Some(i), None) => assume(i + 1 == v.len() && v[i].1 < cursor && v[i].0 < cursor),
        CursorPosition::InSpace(None, None) => assume(v.len() == 0),
    }
    ghost_set(edit::WORD, Some(match r {
        CursorPosition::InWord(i) | CursorPosition::OnWordRightEdge(i) => Some(v[i].0),
        _ => None,
    }));
    r
}

// ---- what a redraw relies on
/// The widths of the lines of a part of the text.
pub fn buffer_range_width(b: &Buffer, start: usize, end: usize) -> Vec<usize> {
    check(start <= end && end <= b.num_chars(), "C01 the part of the text to measure is in range");
    let v: Vec<usize> = nondet();
    assume(v.len() < BIG);
    assume_each(&v, |x| *x < 4 * BIG);
    v
}
pub fn buffer_lines(_b: &Buffer) -> Vec<String> {
    let v: Vec<String> = nondet();
    assume(v.len() < BIG && v.len() > 0);
    v
}
pub fn util_last_prompt_line_width(_s: &String) -> usize {
    let n: usize = nondet();
    assume(n < 4 * BIG);
    n
}
/// The sum of the widths, wrapped; far below the range of the type because every one of them is held in memory.
pub fn display_impl_calc_width(_p: usize, _w: &[usize], terminal_width: usize) -> usize {
    check(terminal_width > 0, "C01 the width of the terminal is not zero");
    let n: usize = nondet();
    assume(n < 1024 * BIG);
    n
}
pub fn editor_print_completion_list(c: &[String], _h: Option<usize>, w: usize, out: &mut String) -> io::Result<usize> {
    check(w < BIG, "C01 the width of the terminal is in range");
    let s: String = nondet();
    out.push_str(&s);
    let n: usize = nondet();
    assume(n <= c.len());
    Ok(n)
}
pub fn util_find_longest_common_prefix<T>(_a: &[Vec<T>]) -> Option<Vec<T>> { nondet() }

// ---- what keys rely on
pub fn buffer_start_undo_group(_b: &mut Buffer) {
    let n: usize = ghost_get(key::GROUPS);
    ghost_set(key::GROUPS, n + 1);
}
pub fn buffer_end_undo_group(_b: &mut Buffer) {
    let n: usize = ghost_get(key::GROUPS);
    check(n > 0, "C22 only a group that is open is closed");
    if n > 0 {
        ghost_set(key::GROUPS, n - 1);
    }
}
pub fn editor_search(ed: &mut Ed, _f: bool) -> io::Result<()> { key::jump(ed, false, true) }
pub fn editor_move_up(ed: &mut Ed) -> io::Result<()> { key::jump(ed, true, false) }
pub fn editor_move_down(ed: &mut Ed) -> io::Result<()> { key::jump(ed, true, false) }
pub fn editor_move_to_start_of_history(ed: &mut Ed) -> io::Result<()> { key::jump(ed, true, true) }
pub fn editor_move_to_end_of_history(ed: &mut Ed) -> io::Result<()> { key::jump(ed, true, false) }
pub fn editor_complete(ed: &mut Ed, _h: &mut VComp) -> io::Result<()> { key::complete(ed) }
pub fn editor_handle_newline(ed: &mut Ed) -> io::Result<bool> { key::newline(ed) }
pub fn editor_accept_autosuggestion(ed: &mut Ed) -> io::Result<()> { key::accept(ed) }
/// Goes somewhere.
pub fn vi_vi_move_word(ed: &mut Ed, _m: key::SMoveMode, _d: key::SMoveDir, _n: usize) -> io::Result<()> { ed.move_cursor_to(nondet()) }
pub fn vi_vi_move_word_end(ed: &mut Ed, _m: key::SMoveMode, _d: key::SMoveDir, _n: usize) -> io::Result<()> { ed.move_cursor_to(nondet()) }
pub fn vi_find_char(b: &Buffer, start: usize, _c: char, n: usize) -> Option<usize> {
    check(n > 0, "C01 a character is looked for at least once");
    let r: Option<usize> = nondet();
    if let Some(i) = r {
        assume(i < b.num_chars() && start <= i);
    }
    r
}
pub fn vi_find_char_rev(b: &Buffer, start: usize, _c: char, n: usize) -> Option<usize> {
    check(n > 0, "C01 a character is looked for at least once");
    check(start <= b.num_chars(), "C01 the search starts within the text");
    let r: Option<usize> = nondet();
    if let Some(i) = r {
        assume(i < start);
    }
    r
}

/// the last word of the text
pub fn buffer_last_arg(b: &Buffer) -> Option<&[char]> {
    let d = edit::chars(b);
    let (i, j): (usize, usize) = nondet();
    if i < j && j <= d.len() {
        return Some(&d[i..j]);
    }
    None
}

// ---- what it means to match: an arbitrary range of entries does
pub fn buffer_contains(b: &Buffer, _p: &Buffer) -> bool { misc::matches(b, false) }
pub fn buffer_starts_with(b: &Buffer, _p: &Buffer) -> bool { misc::matches(b, true) }

// ---- what completing relies on
/// The word before the cursor starts where it starts, as long as the text stays as it is.
fn word_start(ed: &Ed) -> Option<usize> {
    match ghost_get::<Option<Option<usize>>>(edit::WORD) {
        Some(w) => w,
        None => {
            let w: Option<usize> = nondet();
            if let Some(i) = w {
                assume(i < ed.cursor());
            }
            ghost_set(edit::WORD, Some(w));
            w
        }
    }
}
pub fn editor_get_word_before_cursor(ed: &Ed, _space: bool) -> Option<(usize, usize)> {
    let i = word_start(ed)?;
    let e: usize = nondet();
    assume(ed.cursor() <= e && e <= ed.current_buffer().num_chars());
    Some((i, e))
}
/// see `root_ed_del_word`
pub fn editor_delete_word_before_cursor(ed: &mut Ed, space: bool) -> io::Result<()> {
    check(!space, "C19 blanks before the cursor are not part of the word");
    let c = ed.cursor();
    check(c <= ed.current_buffer().num_chars(), "C02 cursor within the text");
    if let Some(i) = word_start(ed) {
        let d = poke::<Buffer, Vec<char>>(ed.current_buffer_mut(), "data");
        let mut v: Vec<char> = d[..i].to_vec();
        v.extend_from_slice(&d[c..]);
        *d = v;
        *poke::<Ed, usize>(ed, "cursor") = i;
    }
    ed.display()
}
