//! Word division, completers, equality, and the loop that reads a line.
use crate::edit::chars;
use crate::*;

/// which entries contain the text, and which start with it: those in a range
pub const RANGES: usize = 39;
/// what was found to be the newest match
pub const NEWEST: usize = 41;
type Ranges = ((usize, usize), (usize, usize));
pub fn matches(b: &Buffer, starts: bool) -> bool {
    let r = ghost_get::<Ranges>(RANGES);
    let r = if starts { r.1 } else { r.0 };
    let i = position(b);
    if i < r.0 {
        return false;
    }
    i < r.1
}
fn range(c: usize) -> (usize, usize) {
    if c == 0 { (0, nondet()) } else { (nondet(), usize::MAX) }
}
/// Which positions match is arbitrary; it is enough to tell those below, or from, an arbitrary one from the others.
fn ranges() -> Ranges {
    let r = match case(0, 2) {
        0 => (range(0), range(0)),
        _ => (range(1), range(1)),
    };
    ghost_set(RANGES, r);
    r
}
pub fn root_def_history_search_index__matching(h: &History, b: &Buffer) {
    let (c, _) = ranges();
    let v = h.search_index(b);
    let k: usize = nondet();
    assume(k < v.len());
    check(v[k] < h.len(), "C13 matching positions are in range");
    check(v[k] >= c.0, "C13 what a search lists contains what was typed");
    if c.1 != usize::MAX {
        check(v[k] < c.1, "C13 what a search lists contains what was typed");
    }
}
pub fn root_def_history_get_history_subset__matching(h: &History, b: &Buffer) {
    let hi: usize = nondet();
    let c = (0, hi);
    // what starts with a text contains it: either nothing does, or all that contain it
    ghost_set::<Ranges>(RANGES, (c, if case(0, 2) == 0 { (0, 0) } else { c }));
    let v = h.get_history_subset(b);
    let k: usize = nondet();
    assume(k < v.len());
    check(v[k] < h.len(), "C13 matching positions are in range");
    check(v[k] < hi, "C13 what browsing lists starts with or contains what was typed");
}
pub fn root_def_history_get_newest_match__matching(h: &History, p: Option<usize>, b: &Buffer) {
    let (_, s) = ranges();
    if let Some(i) = h.get_newest_match(p, b) {
        check(i < h.len(), "C13 matching positions are in range");
        check(i >= s.0, "C13 what is suggested starts with what was typed");
        if s.1 != usize::MAX {
            check(i < s.1, "C13 what is suggested starts with what was typed");
        }
        if let Some(p) = p {
            check(i < p, "C13 what is suggested is before the position the search starts from");
        }
    }
}
pub fn root_buf_contains(a: &Buffer, b: &Buffer) {
    if a.contains(b) {
        check(b.num_chars() > 0, "C13 nothing matches an empty text");
        check(b.num_chars() <= a.num_chars(), "C13 what contains a text is no shorter");
    }
}
pub fn root_buf_starts_with(a: &Buffer, b: &Buffer) {
    if a.starts_with(b) {
        check(b.num_chars() > 0, "C13 nothing matches an empty text");
        check(b.num_chars() < a.num_chars(), "C13 what starts with a text is longer");
    }
}

pub fn root_words(b: &Buffer) {
    assume(b.num_chars() < BIG);
    let v = get_buffer_words(b);
    let k: usize = nondet();
    if k < v.len() {
        check(v[k].0 < v[k].1, "C23 a word is not empty");
        check(v[k].1 <= b.num_chars(), "C23 a word lies within the text");
    }
}
pub fn root_comp_basic(b: &mut BasicCompleter, w: &str) {
    let _ = b.completions(w);
}
pub fn root_comp_file(f: &mut FilenameCompleter, w: &str) {
    let _ = f.completions(w);
}
pub fn root_buf_eq(a: &Buffer, b: &Buffer) {
    if a == b {
        check(*edit::chars(a) == *edit::chars(b), "C17 equal buffers have the same text");
    }
}

// ---- the loop that reads a line
const ENDED: usize = 42; // why there are no more keys to handle: 1 the line is complete, 2 the input is at its end, 3 a key failed
const LAST_TEXT: usize = 43;
pub fn asked() { check(ghost_get::<usize>(ENDED) == 0, "C24 no key is read once the line is complete"); }
pub fn no_more() { ghost_set(ENDED, 2usize); }
/// a key map that may do anything
#[derive(Default)]
pub struct VMap;
impl KeyMap for VMap {
    fn handle_key_core<C: EditorContext>(&mut self, _key: Key, _ed: &mut Editor<C>) -> io::Result<()> { nondet() }
    fn init<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
        anything(ed);
        if nondet() {
            edit::tty_fail();
            return Err(nondet());
        }
        Ok(())
    }
    fn handle_key<X: EditorContext, C: Completer>(&mut self, _key: Key, ed: &mut Editor<X>, _h: &mut C) -> io::Result<bool> {
        check(ghost_get::<usize>(ENDED) == 0, "C24 no key is handled once the line is complete");
        anything(ed);
        if nondet() {
            edit::tty_fail();
            return Err(nondet());
        }
        if nondet() {
            ghost_set(ENDED, 1usize);
            return Ok(true);
        }
        Ok(false)
    }
}
fn anything<C: EditorContext>(ed: &mut Editor<C>) {
    // (where the line is kept is one of the cases)
    match case(0, 2) {
        0 => *poke::<Editor<C>, Buffer>(ed, "new_buf") = nondet(),
        _ => *poke::<Editor<C>, Buffer>(ed, "hist_buf") = nondet(),
    }
    ghost_set(LAST_TEXT, copy(chars(ed.current_buffer())));
}
pub fn root_read_keys(ed: Ed, h: &mut VComp) {
    assume(hist_loc_ok(&ed));
    match case(0, 2) {
        0 => assume(ed.current_history_location().is_none()),
        _ => assume(ed.current_history_location().is_some() && *peek::<Ed, bool>(&ed, "hist_buf_valid")),
    }
    edit::tty_init();
    ghost_set(ENDED, 0usize);
    ghost_set(LAST_TEXT, copy(chars(ed.current_buffer())));
    let r = <VCtx as EditorContext>::handle_keys(VMap, ed, h);
    if ghost_get::<bool>(6) {
        check(r.is_err(), "C08 a failed terminal operation is reported");
    }
    if let Ok(s) = r {
        check(ghost_get::<usize>(ENDED) != 0, "C24 a line is returned once it is complete or the input ends");
        let t: Vec<char> = s.chars().collect();
        check(t == ghost_get::<Vec<char>>(LAST_TEXT), "C24 the line returned is the text after the last key");
    }
}
