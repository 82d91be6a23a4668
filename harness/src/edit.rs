//! Roots on every public operation of `Editor`: each is analysed from an arbitrary editor that satisfies the
//! invariant, against an arbitrary terminal that may fail at every call.
use crate::*;

const FAILED: usize = 6; // a terminal operation failed
const PENDING: usize = 7; // something was written to the terminal and not flushed
const SHOWN: usize = 8; // the line was redrawn
const SHOWN_CURSOR: usize = 9;
const SHOWN_TEXT: usize = 10;
pub const WORD: usize = 11; // where the word before the cursor starts
pub const ANNOUNCED: usize = 12; // a completion was announced
const SUGG: usize = 13; // what the last redraw suggests (at least as long as the line it showed, outside of a search)
const SUGG_SEARCH: usize = 14;
const RESULTS: usize = 15; // the search results the last redraw found, with the history they are about
const RESULTS_LOC: usize = 16;
const RESULTS_HIST: usize = 17;
const SUGG_TEXT: usize = 18;
pub type Hint = Option<(Vec<String>, Option<usize>)>;

pub fn set_sugg(ed: &mut Ed) {
    let s: Option<Buffer> = nondet();
    ghost_set(SUGG, Some(copy(&s)));
    ghost_set(SUGG_SEARCH, is_search(ed));
    ghost_set(SUGG_TEXT, copy(chars(ed.current_buffer())));
    *poke::<Ed, Option<Buffer>>(ed, "autosuggestion") = s;
}
pub fn set_results(ed: &mut Ed, v: Vec<usize>, loc: Option<usize>) {
    ghost_set(RESULTS, Some(copy(&v)));
    ghost_set(RESULTS_LOC, loc);
    ghost_set(RESULTS_HIST, copy(&ed.context().history.buffers));
    *poke::<Ed, Vec<usize>>(ed, "history_subset_index") = v;
    *poke::<Ed, Option<usize>>(ed, "history_subset_loc") = loc;
}
/// nothing changed since the redraw that chose the suggestion
fn sugg_fresh(ed: &Ed) -> bool {
    match ghost_get::<Option<Option<Buffer>>>(SUGG) {
        Some(g) => same(&g, peek::<Ed, Option<Buffer>>(ed, "autosuggestion")) && same(&ghost_get::<Vec<char>>(SUGG_TEXT), chars(ed.current_buffer())) && same(&ghost_get::<bool>(SUGG_SEARCH), &is_search(ed)),
        None => false,
    }
}
fn results_fresh(ed: &Ed) -> bool {
    match ghost_get::<Option<Vec<usize>>>(RESULTS) {
        Some(g) => same(&g, peek::<Ed, Vec<usize>>(ed, "history_subset_index")) && same(&ghost_get::<Option<usize>>(RESULTS_LOC), peek::<Ed, Option<usize>>(ed, "history_subset_loc"))
            && same(&ghost_get::<std::collections::VecDeque<Buffer>>(RESULTS_HIST), &ed.context().history.buffers),
        None => false,
    }
}

const LITE: usize = 34; // redraws are only about the cursor
pub fn lite(b: bool) { ghost_set(LITE, b); }
pub fn is_lite() -> bool { ghost_get::<bool>(LITE) }
pub fn tty_fail() { ghost_set(FAILED, true); }
pub fn tty_pending(b: bool) {
    ghost_set(PENDING, b);
    if b { key::used() } else { key::flushed() }
}
pub fn tty_shown(cursor: usize, text: Vec<char>) {
    ghost_set(SHOWN, true);
    key::used();
    ghost_set(SHOWN_CURSOR, cursor);
    ghost_set(SHOWN_TEXT, text);
}
pub fn tty_init() {
    ghost_set(FAILED, false);
    lite(false);
    ghost_set(PENDING, false);
    ghost_set(SHOWN, false);
    ghost_set(SHOWN_CURSOR, 0usize);
    ghost_set(SHOWN_TEXT, Vec::<char>::new());
    ghost_set(SUGG, None::<Option<Buffer>>);
    ghost_set(RESULTS, None::<Vec<usize>>);
}
pub fn chars(b: &Buffer) -> &Vec<char> { peek::<Buffer, Vec<char>>(b, "data") }

/// the line that is being entered
fn peek_new(ed: &Ed) -> &Buffer { peek::<Ed, Buffer>(ed, "new_buf") }
pub struct Snap { pub text: Vec<char>, pub cursor: usize, k: usize, hist: std::collections::VecDeque<Buffer>, no_eol: bool, hint: Hint, sub: Vec<usize>, sub_loc: Option<usize>, sugg: Option<Buffer>, rev: bool, fwd: bool, pub new: Vec<char>, on_new: bool, loc: Option<usize> }
fn snap(ed: &Ed, k: usize) -> Snap {
    Snap {
        text: copy(chars(ed.current_buffer())),
        cursor: ed.cursor(),
        k,
        hist: copy(&ed.context().history.buffers),
        no_eol: ed.no_eol,
        hint: copy(peek::<Ed, Hint>(ed, "show_completions_hint")),
        sub: copy(peek::<Ed, Vec<usize>>(ed, "history_subset_index")),
        sub_loc: copy(peek::<Ed, Option<usize>>(ed, "history_subset_loc")),
        sugg: copy(peek::<Ed, Option<Buffer>>(ed, "autosuggestion")),
        rev: *peek::<Ed, bool>(ed, "reverse_search"),
        fwd: *peek::<Ed, bool>(ed, "forward_search"),
        new: copy(chars(peek_new(ed))),
        on_new: ed.current_history_location().is_none(),
        loc: ed.current_history_location(),
    }
}
/// operations that are about the suggestion, the search or the completions
pub fn start(ed: &Ed, k: usize) -> Snap {
    assume_inv(ed);
    tty_init();
    snap(ed, k)
}
/// all others
pub fn start_light(ed: &Ed, k: usize) -> Snap {
    assume_inv_light(ed);
    tty_init();
    snap(ed, k)
}
pub fn common(ed: &Ed, s: &Snap, ok: bool) {
    common_f(ed, s, ok, true)
}
/// `flushed`: everything written must have been flushed (otherwise that is left to the caller)
pub fn common_f(ed: &Ed, s: &Snap, ok: bool, flushed: bool) {
    if ghost_get::<bool>(FAILED) {
        check(!ok, "C08 a failed terminal operation is reported");
    }
    check_history(ed, s);
    if ok {
        check_inv_since(ed, s);
        check(!flushed || !ghost_get::<bool>(PENDING), "C07 everything written to the terminal is flushed");
        check(ed.no_eol == s.no_eol, "C21 the cursor restriction is unchanged");
        check_shown(ed, s);
    }
    if !s.on_new {
        check(s.new == *chars(peek_new(ed)), "C30 the line being entered is unchanged by what is done to a recalled entry");
    }
}
/// the line shown is the line
pub fn check_shown(ed: &Ed, s: &Snap) {
    let t = chars(ed.current_buffer());
    if ghost_get::<bool>(SHOWN) {
        check(!ed.no_eol || t.len() == 0 || ed.cursor() < t.len(), "C02 the cursor is on a character in normal mode");
        check(ghost_get::<usize>(SHOWN_CURSOR) == ed.cursor(), "C07 the cursor shown is the cursor");
        check(ghost_get::<Vec<char>>(SHOWN_TEXT) == *t, "C07 the text shown is the text");
    } else {
        check(s.cursor == ed.cursor(), "C07 without a redraw the cursor is unchanged");
        check(s.text == *t, "C07 without a redraw the text is unchanged");
    }
}
/// the history is what it was
pub fn check_history(ed: &Ed, s: &Snap) {
    let h = &ed.context().history;
    if !same(&h.buffers, &s.hist) {
        if !h.share {
            check(h.len() == s.hist.len(), "C05 the number of history entries is unchanged");
            if s.k < s.hist.len() {
                check(s.k < h.len() && chars(&h.buffers[s.k]) == chars(&s.hist[s.k]), "C05 the text of every history entry is unchanged");
            }
        }
    } else {
        check(true, "C05 the number of history entries is unchanged");
        check(true, "C05 the text of every history entry is unchanged");
    }
}
/// the invariant; what was not touched needs no argument
fn check_inv_since(ed: &Ed, s: &Snap) {
    check(hist_loc_ok(ed), "C01 history location in range after the call");
    check(cursor_ok(ed), "C02 cursor within the text after the call");
    check(search_ok(ed), "C06 a search is over the new line");
    let t = chars(ed.current_buffer());
    let sugg = peek::<Ed, Option<Buffer>>(ed, "autosuggestion");
    let flags = is_search(ed) == (s.rev || s.fwd);
    let sugg_kept = (same(sugg, &s.sugg) && same(t, &s.text) && flags) || sugg_fresh(ed);
    check(sugg_kept || sugg_ok(ed), "C01 the suggestion is as long as the line after the call");
    check(same(peek::<Ed, Hint>(ed, "show_completions_hint"), &s.hint) || hint_ok(ed), "C01 highlighted completion in range after the call");
    let v = peek::<Ed, Vec<usize>>(ed, "history_subset_index");
    let loc = peek::<Ed, Option<usize>>(ed, "history_subset_loc");
    let found = (same(v, &s.sub) && same(loc, &s.sub_loc)) || results_fresh(ed);
    check(found || subset_loc_ok(ed), "C01 search location in range after the call");
    let h = &ed.context().history;
    let kept = (same(v, &s.sub) && same(&h.buffers, &s.hist)) || results_fresh(ed);
    if kept {
        check(true, "C01 search results in range after the call");
    } else {
        let k: usize = nondet();
        if k < v.len() {
            check(v[k] < h.len(), "C01 search results in range after the call");
        }
    }
}
/// looking around does not write into the line that is being entered
pub fn same_new(ed: &Ed, s: &Snap) {
    check(s.new == *chars(peek_new(ed)), "C16 the line being entered is unchanged");
}
/// where a redraw leaves the cursor
pub fn clamped(ed: &Ed, c: usize) -> usize {
    let n = chars(ed.current_buffer()).len();
    let m = if c < n { c } else { n };
    if ed.no_eol && m != 0 && m == n { m - 1 } else { m }
}
/// the text from `i` to `j` is replaced by `new`, and the cursor is at `c`
pub fn exact(ed: &Ed, s: &Snap, i: usize, j: usize, new: &[char], c: usize) {
    let mut t = s.text[..i].to_vec();
    t.extend_from_slice(new);
    t.extend_from_slice(&s.text[j..]);
    check(t == *chars(ed.current_buffer()), "C30 exactly the characters named are changed");
    check(ed.cursor() == clamped(ed, c), "C30 the cursor is where the operation puts it");
}
pub fn moved(ed: &Ed, c: usize) {
    check(ed.cursor() == clamped(ed, c), "C30 the cursor is where the operation puts it");
}
pub fn same_text(ed: &Ed, s: &Snap) {
    check(s.text == *chars(ed.current_buffer()), "C06 the text is unchanged");
}

macro_rules! motion {
    ($n:ident($ed:ident $s:ident $(, $a:ident: $t:ty)*) $b:expr, $c:expr) => {
        pub fn $n($ed: &mut Ed, k: usize $(, $a: $t)*) {
            let $s = start_light($ed, k);
            let r = $b;
            common($ed, &$s, r.is_ok());
            same_text($ed, &$s);
            same_new($ed, &$s);
            if r.is_ok() {
                moved($ed, $c);
            }
        }
    };
}
macro_rules! edit {
    ($n:ident($ed:ident $s:ident $(, $a:ident: $t:ty)*) $b:expr, $e:expr) => {
        pub fn $n($ed: &mut Ed, k: usize $(, $a: $t)*) {
            let $s = start_light($ed, k);
            let r = $b;
            common($ed, &$s, r.is_ok());
            if r.is_ok() {
                $e;
            }
        }
    };
}
macro_rules! full {
    ($n:ident($ed:ident $s:ident $(, $a:ident: $t:ty)*) $b:expr) => {
        pub fn $n($ed: &mut Ed, k: usize $(, $a: $t)*) {
            let $s = start($ed, k);
            let r = $b;
            common($ed, &$s, r.is_ok());
            same_new($ed, &$s);
        }
    };
}
motion!(root_ed_left(ed s, n: usize) ed.move_cursor_left(n), if n < s.cursor { s.cursor - n } else { 0 });
motion!(root_ed_right(ed s, n: usize) ed.move_cursor_right(n), if n < s.text.len() - s.cursor { s.cursor + n } else { s.text.len() });
motion!(root_ed_to(ed s, n: usize) ed.move_cursor_to(n), n);
motion!(root_ed_home(ed s) ed.move_cursor_to_start_of_line(), 0);
motion!(root_ed_end(ed s) ed.move_cursor_to_end_of_line(), s.text.len());
motion!(root_ed_display(ed s) ed.display(), s.cursor);
motion!(root_ed_clear(ed s) ed.clear(), s.cursor);
pub fn root_ed_flush(ed: &mut Ed, k: usize) {
    let s = start_light(ed, k);
    let r = ed.flush();
    common(ed, &s, r.is_ok());
    same_text(ed, &s);
    same_new(ed, &s);
    check(ed.cursor() == s.cursor, "C30 the cursor is where the operation puts it");
}
pub fn root_ed_search(ed: &mut Ed, k: usize, f: bool) {
    let s = start(ed, k);
    let again = is_search(ed) && !*peek::<Ed, bool>(ed, "buffer_changed");
    let r = ed.search(f);
    common(ed, &s, r.is_ok());
    same_new(ed, &s);
    if r.is_ok() && again && s.sub.len() > 0 {
        if let Some(p) = s.sub_loc {
            let at = *peek::<Ed, Option<usize>>(ed, "history_subset_loc");
            let last = s.sub.len() - 1;
            let to = if f {
                if p < last { p + 1 } else { 0 }
            } else if p > 0 {
                p - 1
            } else {
                last
            };
            check(at == Some(to), "C31 repeating a search goes to the next match in its direction");
        }
    }
}
/// Browsing: from where to where (`s.sub` is still the list of matches, or a new one is at its newest).
fn browsed(ed: &Ed, s: &Snap, up: bool) {
    let (loc, at) = (ed.current_history_location(), *peek::<Ed, Option<usize>>(ed, "history_subset_loc"));
    let n = ed.context().history.len();
    moved(ed, chars(ed.current_buffer()).len());
    if s.new.len() == 0 {
        let to = match s.loc {
            Some(i) if up => Some(if i > 0 { i - 1 } else { 0 }),
            Some(i) => if i + 1 < n { Some(i + 1) } else { None },
            None => if up && n > 0 { Some(n - 1) } else { None },
        };
        check(loc == to, "C31 the entry shown is the next one in that direction");
    } else {
        let v = peek::<Ed, Vec<usize>>(ed, "history_subset_index");
        match s.sub_loc {
            Some(i) => {
                let to = if up {
                    Some(if i > 0 { i - 1 } else { 0 })
                } else if i + 1 < s.sub.len() {
                    Some(i + 1)
                } else {
                    None
                };
                check(at == to, "C31 the match shown is the next one in that direction");
            }
            None => {
                let to = if up && v.len() > 0 { Some(v.len() - 1) } else { None };
                check(at == to, "C31 browsing starts at the newest match");
            }
        }
        match at {
            Some(j) => {
                let stays = match s.sub_loc { Some(0) => up, _ => false };
                check(j < v.len() && (loc == Some(v[j]) || stays && loc == s.loc), "C31 the entry shown is that of the match");
            }
            None => check(loc.is_none() || (s.sub_loc.is_none() && loc == s.loc), "C31 after the newest match comes the line being entered"),
        }
    }
}
macro_rules! browse {
    ($n:ident $f:ident $up:expr) => {
        pub fn $n(ed: &mut Ed, k: usize) {
            let s = start(ed, k);
            let (search, share) = (is_search(ed), ed.context().history.share);
            let r = ed.$f();
            common(ed, &s, r.is_ok());
            same_new(ed, &s);
            if r.is_ok() && !search && !share {
                browsed(ed, &s, $up);
            }
        }
    };
}
browse!(root_ed_up move_up true);
browse!(root_ed_down move_down false);
pub fn root_ed_first(ed: &mut Ed, k: usize) {
    let s = start(ed, k);
    let r = ed.move_to_start_of_history();
    common(ed, &s, r.is_ok());
    same_new(ed, &s);
    if r.is_ok() {
        let to = if ed.context().history.len() > 0 { Some(0) } else { None };
        check(ed.current_history_location() == to, "C31 the oldest entry is shown");
    }
}
pub fn root_ed_last(ed: &mut Ed, k: usize) {
    let s = start(ed, k);
    let r = ed.move_to_end_of_history();
    common(ed, &s, r.is_ok());
    same_new(ed, &s);
    if r.is_ok() {
        check(ed.current_history_location() == None, "C31 the line being entered is shown");
    }
}
edit!(root_ed_undo(ed s) ed.undo(), ());
edit!(root_ed_redo(ed s) ed.redo(), ());
edit!(root_ed_revert(ed s) ed.revert(), ());
edit!(root_ed_insert(ed s, c: char) ed.insert_after_cursor(c), exact(ed, &s, s.cursor, s.cursor, &[c], s.cursor + 1));
edit!(root_ed_insert_str(ed s, c: &str) ed.insert_str_after_cursor(c), {
    let v: Vec<char> = c.chars().collect();
    exact(ed, &s, s.cursor, s.cursor, &v, s.cursor + v.len())
});
edit!(root_ed_insert_chars(ed s, c: &[char]) ed.insert_chars_after_cursor(c), exact(ed, &s, s.cursor, s.cursor, c, s.cursor + c.len()));
edit!(root_ed_bs(ed s) ed.delete_before_cursor(), {
    let i = if s.cursor > 0 { s.cursor - 1 } else { 0 };
    exact(ed, &s, i, s.cursor, &[], i)
});
edit!(root_ed_del(ed s) ed.delete_after_cursor(), {
    let j = if s.cursor < s.text.len() { s.cursor + 1 } else { s.cursor };
    exact(ed, &s, s.cursor, j, &[], s.cursor)
});
edit!(root_ed_del_all_before(ed s) ed.delete_all_before_cursor(), exact(ed, &s, 0, s.cursor, &[], 0));
edit!(root_ed_del_all_after(ed s) ed.delete_all_after_cursor(), exact(ed, &s, s.cursor, s.text.len(), &[], s.cursor));
edit!(root_ed_del_until(ed s, n: usize) ed.delete_until(n), {
    let n = if n < s.text.len() { n } else { s.text.len() };
    let (i, j) = if n < s.cursor { (n, s.cursor) } else { (s.cursor, n) };
    exact(ed, &s, i, j, &[], i)
});
edit!(root_ed_del_until_incl(ed s, n: usize) ed.delete_until_inclusive(n), {
    let n = if n < s.text.len() { n } else { s.text.len() };
    let (i, j) = if n < s.cursor { (n, s.cursor) } else { (s.cursor, n) };
    let j = if j < s.text.len() { j + 1 } else { j };
    exact(ed, &s, i, j, &[], i)
});
edit!(root_ed_del_word(ed s, b: bool) ed.delete_word_before_cursor(b), {
    // from the start of some word up to the cursor
    let t = chars(ed.current_buffer());
    let right = s.text.len() - s.cursor;
    check(t.len() >= right && t.len() <= s.text.len(), "C30 only a word before the cursor is deleted");
    let i = t.len() - right;
    check(t[..i] == s.text[..i] && t[i..] == s.text[s.cursor..], "C30 exactly the characters named are changed");
    check(ed.cursor() == clamped(ed, i), "C30 the cursor is where the operation puts it");
});
pub fn root_ed_accept(ed: &mut Ed, k: usize) {
    let s = start(ed, k);
    let search = is_search(ed);
    let shows = *peek::<Ed, bool>(ed, "show_autosuggestions");
    let sugg: Vec<char> = match &s.sugg {
        Some(b) if shows => copy(chars(b)),
        _ => copy(&s.text),
    };
    let r = ed.accept_autosuggestion();
    common(ed, &s, r.is_ok());
    if r.is_ok() {
        let t = chars(ed.current_buffer());
        if search {
            check(*t == sugg, "C16 what is accepted is what was shown");
        } else {
            let n = s.text.len();
            check(t.len() >= n && t[..n] == s.text[..], "C16 accepting keeps what was typed");
            check(sugg.len() == t.len() && t[n..] == sugg[n..], "C16 what is accepted is what was shown");
        }
        moved(ed, t.len());
    }
}
/// ends the line with a line break, which the caller flushes
pub fn root_ed_newline(ed: &mut Ed, k: usize) {
    let s = start(ed, k);
    let (hint, search) = (hint_sel(ed) != 0, *peek::<Ed, bool>(ed, "reverse_search") || *peek::<Ed, bool>(ed, "forward_search"));
    let before = ed.current_buffer().char_before(ed.cursor());
    let r = ed.handle_newline();
    common_f(ed, &s, r.is_ok(), false);
    if let Ok(done) = r {
        if hint {
            check(!done, "C14 a line is not complete while completions are shown");
        } else if !search {
            check(done == (before != Some('\\')), "C14 a line is complete unless a backslash is before the cursor");
            if done {
                check(s.text == *chars(ed.current_buffer()), "C30 exactly the characters named are changed");
            } else {
                exact(ed, &s, s.cursor, s.cursor, &['\n'], s.cursor + 1);
            }
            let t = chars(ed.current_buffer());
            let n = s.text.len() - s.cursor;
            check(t.len() == s.text.len() + !done as usize, "C16 Enter takes nothing from a suggestion unless a search is shown");
            if t.len() >= n && !done {
                check(t[..s.cursor] == s.text[..s.cursor] && t[t.len() - n..] == s.text[s.cursor..], "C16 Enter takes nothing from a suggestion unless a search is shown");
            }
        }
    }
}
/// Starting the editor on any text.
pub fn root_ed_new(p: Prompt, f: Option<ColorClosure>, c: VCtx, b: Buffer, k: usize) {
    let n = c.history.len();
    assume(n < BIG && b.num_chars() < BIG);
    tty_init();
    let text = chars(&b).clone();
    let entry = if k < n { Some(chars(&c.history.buffers[k]).clone()) } else { None };
    partition(&entry);
    match Editor::new_with_init_buffer(p, f, c, b) {
        Err(_) => {}
        Ok(ed) => {
            check(!ghost_get::<bool>(FAILED), "C08 a failed terminal operation is reported");
            check_inv_since(&ed, &snap(&ed, k));
            check(sugg_fresh(&ed) || sugg_ok(&ed), "C01 the suggestion is as long as the line after the call");
            check(*peek::<Ed, Option<usize>>(&ed, "history_subset_loc") == None && hint_sel(&ed) == 0, "C01 no search and no completions at the start");
            check(peek::<Ed, Vec<usize>>(&ed, "history_subset_index").len() == 0, "C01 no search and no completions at the start");
            check(!ghost_get::<bool>(PENDING), "C07 everything written to the terminal is flushed");
            check(ghost_get::<bool>(SHOWN), "C07 the line is shown");
            check(ghost_get::<usize>(SHOWN_CURSOR) == ed.cursor(), "C07 the cursor shown is the cursor");
            check(ghost_get::<Vec<char>>(SHOWN_TEXT) == *chars(ed.current_buffer()), "C07 the text shown is the text");
            check(text == *chars(ed.current_buffer()), "C06 starting the editor leaves the text as given");
            let h = &ed.context().history;
            check(h.len() == n, "C05 the number of history entries is unchanged");
            if let Some(e) = &entry {
                check(k < h.len() && chars(&h.buffers[k]) == e, "C05 the text of every history entry is unchanged");
            }
        }
    }
}
/// The line that is returned.
pub fn root_ed_into(ed: Ed) {
    assume_inv(&ed);
    let text = chars(ed.current_buffer()).clone();
    let s: String = ed.into();
    let t: Vec<char> = s.chars().collect();
    check(t == text, "C24 the line returned is the text");
}
pub fn root_ed_prompt(ed: &mut Ed, k: usize, p: Prompt) {
    let s = start_light(ed, k);
    ed.set_prompt(p);
    common(ed, &s, true);
    same_text(ed, &s);
}
pub fn root_ed_vi_mode(ed: &mut Ed, k: usize, m: ViPromptMode) {
    let s = start_light(ed, k);
    ed.set_vi_mode(m);
    common(ed, &s, true);
    same_text(ed, &s);
}
pub fn root_ed_skip_hint(ed: &mut Ed, k: usize) {
    let s = start_light(ed, k);
    ed.skip_completions_hint();
    common(ed, &s, true);
    same_text(ed, &s);
}
pub fn root_ed_complete(ed: &mut Ed, k: usize, comp: &mut VComp) {
    assume_inv_light(ed);
    partition(peek::<Ed, Hint>(ed, "show_completions_hint"));
    assume(hint_ok(ed));
    match case(2, 3) {
        0 => assume(hint_sel(ed) == 0),
        1 => assume(hint_sel(ed) == 1),
        _ => assume(hint_sel(ed) == 2),
    }
    match case(3, 3) {
        0 => assume(!ed.no_eol),
        1 => assume(ed.no_eol && ed.cursor() < ed.current_buffer().num_chars()),
        _ => assume(ed.no_eol && ed.current_buffer().num_chars() == 0),
    }
    tty_init();
    let s = snap(ed, k);
    ghost_set(WORD, None::<Option<usize>>);
    ghost_set(ANNOUNCED, false);
    // a highlighted completion that is the whole line is replaced as a whole
    let whole = match peek::<Ed, Hint>(ed, "show_completions_hint") {
        Some((v, Some(i))) if *i < v.len() => *ed.current_buffer() == Buffer::from(&v[*i][..]),
        _ => false,
    };
    let r = ed.complete(comp);
    common(ed, &s, r.is_ok());
    let t = chars(ed.current_buffer());
    if s.text != *t {
        check(ghost_get::<bool>(ANNOUNCED), "C15 completion is announced before the text is changed");
    }
    if r.is_ok() && !whole {
        let left = match ghost_get::<Option<Option<usize>>>(WORD) {
            Some(Some(w)) => w,
            _ => s.cursor,
        };
        let right = s.text.len() - s.cursor;
        check(t.len() >= left + right || s.text == *t, "C19 only the word before the cursor is replaced");
        if t.len() >= left + right {
            check(t[..left] == s.text[..left], "C19 the text left of the word is unchanged");
            check(t[t.len() - right..] == s.text[s.cursor..], "C19 the text right of the cursor is unchanged");
        }
    }
    // going through the candidates: the highlighted one is what is inserted
    if r.is_ok() && s.hint.is_some() {
        let left = if whole {
            0
        } else {
            match ghost_get::<Option<Option<usize>>>(WORD) {
                Some(Some(w)) => w,
                _ => s.cursor,
            }
        };
        match peek::<Ed, Hint>(ed, "show_completions_hint") {
            Some((v, Some(i))) if *i < v.len() => {
                let w = Buffer::from(&v[*i][..]);
                let w = chars(&w);
                check(t.len() >= left + w.len() && t[left..left + w.len()] == w[..], "C19 what is inserted is the highlighted candidate");
            }
            _ => check(false, "C19 a candidate is highlighted"),
        }
    }
}
/// What is deleted is the word the cursor is in or behind (see the contracts `editor_*_word_before_cursor`).
pub fn root_def_editor_delete_word_before_cursor(ed: &mut Ed, k: usize) {
    let s = start_light(ed, k);
    ghost_set(WORD, None::<Option<usize>>);
    let r = ed.delete_word_before_cursor(false);
    if r.is_ok() {
        let t = chars(ed.current_buffer());
        let left = match ghost_get::<Option<Option<usize>>>(WORD) {
            Some(Some(w)) => w,
            _ => s.cursor,
        };
        let right = s.text.len() - s.cursor;
        check(t.len() == left + right, "C19 exactly the word before the cursor is deleted");
        check(t[..left] == s.text[..left] && t[left..] == s.text[s.cursor..], "C19 the text around the word is unchanged");
        check(ed.cursor() == clamped(ed, left), "C19 the cursor is where the word was");
    }
}
pub fn root_def_editor_get_word_before_cursor(ed: &mut Ed, k: usize) {
    let s = start_light(ed, k);
    ghost_set(WORD, None::<Option<usize>>);
    let r: Option<(usize, usize)> = private::<(VCtx,), _, _>("editor_get_word_before_cursor", (&*ed, false));
    let w = ghost_get::<Option<Option<usize>>>(WORD);
    match r {
        Some((a, e)) => {
            check(w == Some(Some(a)), "C19 the word is the one the cursor is in or behind");
            check(a < s.cursor && s.cursor <= e, "C19 the word reaches up to the cursor");
            check(e <= s.text.len(), "C19 the word is in the text");
        }
        None => check(w == Some(None), "C19 no word only when there is none before the cursor"),
    }
}
/// The redraw itself (the contract `editor_display_impl` stands for it everywhere else), as called by `display`.
pub fn root_def_editor_display_impl(ed: &mut Ed) {
    partition(peek::<Ed, Option<usize>>(ed, "cur_history_loc"));
    partition(peek::<Ed, bool>(ed, "hist_buf_valid"));
    let n = ed.context().history.len();
    assume(n < BIG);
    assume(hist_loc_ok(ed));
    assume_each(peek::<Ed, Vec<usize>>(ed, "history_subset_index"), |x| *x < n);
    match case(0, 3) {
        0 => assume(hint_sel(ed) == 0),
        1 => assume(hint_sel(ed) == 1),
        _ => assume(hint_sel(ed) == 2),
    }
    let (rev, fwd) = (*peek::<Ed, bool>(ed, "reverse_search"), *peek::<Ed, bool>(ed, "forward_search"));
    match case(1, 2) {
        0 => assume(!rev && !fwd),
        _ => assume(rev || fwd),
    }
    match case(2, 2) {
        0 => assume(ed.no_eol),
        _ => assume(!ed.no_eol),
    }
    match case(3, 4) {
        0 => assume(ed.current_history_location().is_none() && !*peek::<Ed, bool>(ed, "hist_buf_valid")),
        1 => assume(ed.current_history_location().is_none() && *peek::<Ed, bool>(ed, "hist_buf_valid")),
        2 => assume(ed.current_history_location().is_some() && !*peek::<Ed, bool>(ed, "hist_buf_valid")),
        _ => assume(ed.current_history_location().is_some() && *peek::<Ed, bool>(ed, "hist_buf_valid")),
    }
    // the refresh of a search is not part of the redraw itself
    assume(!*peek::<Ed, bool>(ed, "buffer_changed"));
    assume(*peek::<Ed, usize>(ed, "term_cursor_line") < BIG);
    tty_init();
    let text = chars(ed.current_buffer()).clone();
    assume(text.len() < BIG);
    let (c, loc) = (ed.cursor(), ed.current_history_location());
    match case(4, 3) {
        0 => assume(c < text.len()),
        1 => assume(c >= text.len() && text.len() > 0),
        _ => assume(text.len() == 0),
    }
    let r = ed.display();
    if ghost_get::<bool>(FAILED) {
        check(r.is_err(), "C08 a failed terminal operation is reported");
    }
    check(ed.current_history_location() == loc && ed.context().history.len() == n, "C06 a redraw stays on the line");
    check(text == *chars(ed.current_buffer()), "C06 a redraw leaves the text unchanged");
    if r.is_ok() {
        check(!ghost_get::<bool>(PENDING), "C07 a redraw is flushed");
        let m = if c < text.len() { c } else { text.len() };
        let m = if ed.no_eol && m != 0 && m == text.len() { m - 1 } else { m };
        check(ed.cursor() == m, "C02 a redraw only moves the cursor into the text");
        check(*peek::<Ed, usize>(ed, "term_cursor_line") > 0, "C07 the line of the cursor is known");
    }
}
/// `display` may be called in the middle of an operation: with the cursor anywhere and an outdated suggestion.
pub fn root_def_editor_display(ed: &mut Ed, k: usize) {
    partition(peek::<Ed, Option<usize>>(ed, "cur_history_loc"));
    partition(peek::<Ed, bool>(ed, "hist_buf_valid"));
    let n = ed.context().history.len();
    assume(n < BIG);
    shape(ed);
    assume(hist_loc_ok(ed) && search_ok(ed) && subset_loc_ok(ed) && hint_ok(ed));
    assume(ed.current_buffer().num_chars() < BIG);
    assume_each(peek::<Ed, Vec<usize>>(ed, "history_subset_index"), |x| *x < n);
    let entry = if k < n { Some(chars(&ed.context().history.buffers[k]).clone()) } else { None };
    partition(&entry);
    tty_init();
    let (text, c, no_eol) = (chars(ed.current_buffer()).clone(), ed.cursor(), ed.no_eol);
    let (loc, valid, changed) = (ed.current_history_location(), *peek::<Ed, bool>(ed, "hist_buf_valid"), *peek::<Ed, bool>(ed, "buffer_changed"));
    let (rev, fwd, hint) = (*peek::<Ed, bool>(ed, "reverse_search"), *peek::<Ed, bool>(ed, "forward_search"), hint_sel(ed));
    let sub = *peek::<Ed, Option<usize>>(ed, "history_subset_loc");
    ghost_set::<Option<Option<usize>>>(misc::NEWEST, None);
    match case(4, 4) {
        0 => assume(!no_eol && c <= text.len()),
        1 => assume(c > text.len()),
        2 => assume(no_eol && c < text.len()),
        _ => assume(no_eol && c == text.len()),
    }
    let r = ed.display();
    if ghost_get::<bool>(FAILED) {
        check(r.is_err(), "C08 a failed terminal operation is reported");
    }
    check(text == *chars(ed.current_buffer()), "C06 a redraw leaves the text unchanged");
    if r.is_ok() {
        if let Some(b) = peek::<Ed, Option<Buffer>>(ed, "autosuggestion") {
            let h = &ed.context().history.buffers;
            let v = peek::<Ed, Vec<usize>>(ed, "history_subset_index");
            if is_search(ed) {
                match *peek::<Ed, Option<usize>>(ed, "history_subset_loc") {
                    Some(p) if p < v.len() && v[p] < n => check(*chars(b) == *chars(&h[v[p]]), "C13 what a search shows is the match it is at"),
                    _ => check(false, "C13 a search shows something only when it is at a match"),
                }
            } else if let Some(i) = ed.current_history_location() {
                check(i < n && *chars(b) == *chars(&h[i]), "C13 next to a recalled entry nothing else is shown");
            } else if let Some(w) = ghost_get::<Option<Option<usize>>>(misc::NEWEST) {
                match w {
                    Some(i) if i < n => check(*chars(b) == *chars(&h[i]), "C13 what is suggested is the newest match"),
                    _ => check(false, "C13 nothing is suggested when nothing matches"),
                }
            }
        }
    }
    check(ed.current_history_location() == loc && ed.context().history.len() == n, "C06 a redraw stays on the line");
    if let Some(e) = &entry {
        check(chars(&ed.context().history.buffers[k]) == e, "C05 the text of every history entry is unchanged");
    }
    check(*peek::<Ed, bool>(ed, "reverse_search") == rev && *peek::<Ed, bool>(ed, "forward_search") == fwd, "C06 a redraw does not start or end a search");
    check(ed.no_eol == no_eol, "C21 the cursor restriction is unchanged");
    check(hint_sel(ed) == hint && hint_ok(ed), "C14 a redraw keeps the completions shown");
    check(subset_loc_ok(ed), "C01 search location in range after the call");
    if !(changed && (rev || fwd)) {
        check(*peek::<Ed, Option<usize>>(ed, "history_subset_loc") == sub, "C13 a redraw stays at the search result");
        check(*peek::<Ed, bool>(ed, "hist_buf_valid") == valid, "C06 a redraw keeps the copy that is edited");
    }
    let v = peek::<Ed, Vec<usize>>(ed, "history_subset_index");
    let j: usize = nondet();
    if j < v.len() {
        check(v[j] < n, "C01 search results in range after the call");
    }
    if r.is_ok() {
        check(sugg_ok(ed), "C01 the suggestion is as long as the line after the call");
        check(!ghost_get::<bool>(PENDING), "C07 a redraw is flushed");
        let m = if c < text.len() { c } else { text.len() };
        let m = if no_eol && m != 0 && m == text.len() { m - 1 } else { m };
        check(ed.cursor() == m, "C02 a redraw only moves the cursor into the text");
    }
}
/// what the completer is told
pub fn event<C: EditorContext>(k: &EventKind, _ed: &Editor<C>) {
    match k {
        EventKind::BeforeComplete => ghost_set(ANNOUNCED, true),
        _ => {}
    }
}
