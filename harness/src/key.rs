//! Roots on keys: from every state a key can find the editor and the key map in.
use crate::edit::*;
use crate::*;

pub const GROUPS: usize = 19; // undo groups opened and not closed
pub const ACCEPTED: usize = 20; // a suggestion was accepted
pub const NEWLINE: usize = 21; // what ending the line answered
const BEFORE: usize = 22; // events
const AFTER: usize = 23;
const WROTE: usize = 24; // the terminal was written to, or the line redrawn, since the last event
const FLUSHED: usize = 25;
const AFTER_TEXT: usize = 26;
const AFTER_CURSOR: usize = 27;
const SHAPE: usize = 28; // which stack of modes
const SEEN: usize = 29; // the terminal was used

/// what the private types of the Vi key map look like
#[derive(Clone, Copy)]
pub enum SCharMovement { RightUntil, RightAt, LeftUntil, LeftAt, Repeat, ReverseRepeat }
#[derive(Clone, Copy)]
pub enum SMode { Insert, Normal, Replace, Delete(usize), MoveToChar(SCharMovement), G, Tilde }
pub struct SModeStack(pub Vec<SMode>);

const START: usize = 30; // which stack of modes the key found
const ANY_STACK: usize = 31; // what a key handled within a key left
const ANY_EOL: usize = 32;
const ANY_INSERT: usize = 33;
const ANY: usize = 99;
const SOME_KEYS: usize = 38;
const ANY_TEXT: usize = 36;
const ANY_CURSOR: usize = 37;
const ANY_EOL_OK: usize = 35; // the last redraw, or a key handled within this one, kept the cursor on a character
const NORMAL: usize = 0;
const INSERT: usize = 1;
fn make(id: usize) -> Vec<SMode> {
    use SMode::*;
    match id {
        0 => vec![],
        1 => vec![Insert],
        2 => vec![Replace],
        3 => vec![Delete(nondet())],
        4 => vec![MoveToChar(direction())],
        5 => vec![G],
        6 => vec![Delete(nondet()), MoveToChar(direction())],
        7 => vec![Delete(nondet()), G],
        8 => vec![Insert, Delete(nondet())],
        9 => vec![Insert, Delete(nondet()), MoveToChar(direction())],
        _ => vec![Insert, Delete(nondet()), G],
    }
}
/// what is waited for is never to repeat something
fn direction() -> SCharMovement {
    let c: SCharMovement = nondet();
    assume(is_direction(c));
    c
}
fn is_direction(c: SCharMovement) -> bool {
    match c {
        SCharMovement::Repeat => false,
        SCharMovement::ReverseRepeat => false,
        _ => true,
    }
}
fn shape_of(v: &Vec<SMode>) -> Option<usize> {
    use SMode::*;
    match v.len() {
        0 => Some(0),
        1 => match v[0] {
            Insert => Some(1),
            Replace => Some(2),
            Delete(_) => Some(3),
            MoveToChar(_) => Some(4),
            G => Some(5),
            _ => None,
        },
        2 => match (v[0], v[1]) {
            (Delete(_), MoveToChar(_)) => Some(6),
            (Delete(_), G) => Some(7),
            (Insert, Delete(_)) => Some(8),
            _ => None,
        },
        3 => match (v[0], v[1], v[2]) {
            (Insert, Delete(_), MoveToChar(_)) => Some(9),
            (Insert, Delete(_), G) => Some(10),
            _ => None,
        },
        _ => None,
    }
}
fn groups_of(id: usize) -> usize { if id == 1 || id >= 8 { 1 } else { 0 } }
fn stack(vi: &Vi) -> &Vec<SMode> { &peek::<Vi, SModeStack>(vi, "mode_stack").0 }

fn prompt_mode(ed: &Ed) -> Option<&ViPromptMode> {
    match &peek::<Ed, Prompt>(ed, "prompt").vi_status {
        Some(s) => Some(&s.mode),
        None => None,
    }
}
fn is_insert(m: &ViPromptMode) -> bool { match m { ViPromptMode::Insert => true, _ => false } }
/// what holds between two keys, for a given stack of modes
fn assume_vi(vi: &mut Vi, ed: &mut Ed, id: usize) {
    *poke::<Vi, SModeStack>(vi, "mode_stack") = SModeStack(make(id));
    ed.no_eol = id == NORMAL;
    if let Some(m) = prompt_mode(ed) {
        let i = is_insert(m);
        assume(!(id == NORMAL && i) && !(id == INSERT && !i));
    }
    if let Some((_, c)) = peek::<Vi, Option<(char, SCharMovement)>>(vi, "last_char_movement") {
        assume(is_direction(*c));
    }
    ghost_set(SHAPE, id);
    ghost_set(START, id);
    ghost_set(GROUPS, groups_of(id));
}
fn check_vi(vi: &Vi, ed: &Ed) {
    if ghost_get::<usize>(SHAPE) == ANY && same(&ghost_get::<Vec<SMode>>(ANY_STACK), stack(vi)) {
        // still what the key handled within this one left
        check(ghost_get::<bool>(ANY_EOL) == ed.no_eol, "C21 the cursor restriction is on exactly in normal mode");
        check(ghost_get::<bool>(ANY_INSERT) == shown_insert(ed), "C21 the mode shown is that of the key map");
        check(ghost_get::<usize>(GROUPS) == 0, "C22 the undo groups open are those of the modes");
        return;
    }
    match shape_of(stack(vi)) {
        None => check(false, "C21 the modes pending are ones the keys can leave"),
        Some(id) => {
            check(ed.no_eol == (id == NORMAL), "C21 the cursor restriction is on exactly in normal mode");
            if let Some(m) = prompt_mode(ed) {
                let i = is_insert(m);
                check(!(id == NORMAL && i), "C21 normal mode is shown in the prompt");
                check(!(id == INSERT && !i), "C21 insert mode is shown in the prompt");
            }
            if let Some((_, c)) = peek::<Vi, Option<(char, SCharMovement)>>(vi, "last_char_movement") {
                check(is_direction(*c), "C01 a motion to a character that can be repeated has a direction");
            }
            let v = stack(vi);
            let waits = v.len() == 0 || match v[v.len() - 1] {
                SMode::MoveToChar(c) => is_direction(c),
                _ => true,
            };
            check(waits, "C01 a motion to a character has a direction");
            check(ghost_get::<usize>(GROUPS) == groups_of(id), "C22 the undo groups open are those of the modes");
        }
    }
}

// ---- what the operations of the editor do, as far as keys are concerned
pub fn pre(ed: &Ed) {
    check(hist_loc_ok(ed), "C01 an operation is asked for with a valid history location");
    check(cursor_ok(ed), "C02 an operation is asked for with the cursor within the text");
}
fn any_cursor(ed: &mut Ed) { *poke::<Ed, usize>(ed, "cursor") = nondet(); }
fn any_text(ed: &mut Ed) {
    let b = ed.current_buffer_mut();
    let v: Vec<char> = nondet();
    assume(v.len() < BIG);
    *poke::<Buffer, Vec<char>>(b, "data") = v;
}
fn any_results(ed: &mut Ed) {
    let n = ed.context().history.len();
    let v: Vec<usize> = nondet();
    assume(v.len() <= n);
    assume_each(&v, |x| *x < n);
    *poke::<Ed, Vec<usize>>(ed, "history_subset_index") = v;
    *poke::<Ed, Option<usize>>(ed, "history_subset_loc") = nondet();
}
/// goes to another line
pub fn jump(ed: &mut Ed, line: bool, search: bool) -> io::Result<()> {
    pre(ed);
    if line || ed.current_history_location().is_some() {
        check(ghost_get::<usize>(GROUPS) == 0, "C22 no undo group is open when another line is gone to");
    }
    if ed.context().history.share {
        let _ = contract::history_load_history(&mut ed.context_mut().history, false);
    }
    any_results(ed);
    if search {
        let (a, b): (bool, bool) = nondet();
        *poke::<Ed, bool>(ed, "reverse_search") = a;
        *poke::<Ed, bool>(ed, "forward_search") = b;
    }
    *poke::<Ed, Option<usize>>(ed, "cur_history_loc") = nondet();
    if edit::is_lite() {
        // the text, wherever it is
        *poke::<Ed, bool>(ed, "hist_buf_valid") = true;
        assume(hist_loc_ok(ed));
        any_text(ed);
    } else {
        *poke::<Ed, bool>(ed, "hist_buf_valid") = nondet();
        assume(hist_loc_ok(ed) && search_ok(ed));
        assume(ed.current_buffer().num_chars() < BIG);
    }
    any_cursor(ed);
    contract::editor_display(ed)
}
pub fn accept(ed: &mut Ed) -> io::Result<()> {
    pre(ed);
    ghost_set(ACCEPTED, true);
    any_text(ed);
    *poke::<Ed, bool>(ed, "reverse_search") = false;
    *poke::<Ed, bool>(ed, "forward_search") = false;
    any_cursor(ed);
    contract::editor_display(ed)
}
pub fn complete(ed: &mut Ed) -> io::Result<()> {
    pre(ed);
    let h: Hint = nondet();
    *poke::<Ed, Hint>(ed, "show_completions_hint") = h;
    assume(hint_ok(ed));
    if nondet() {
        return Ok(());
    }
    any_text(ed);
    any_cursor(ed);
    contract::editor_display(ed)
}
pub fn newline(ed: &mut Ed) -> io::Result<bool> {
    pre(ed);
    *poke::<Ed, bool>(ed, "reverse_search") = false;
    *poke::<Ed, bool>(ed, "forward_search") = false;
    *poke::<Ed, Option<usize>>(ed, "history_subset_loc") = None;
    *poke::<Ed, Hint>(ed, "show_completions_hint") = None;
    any_text(ed);
    any_cursor(ed);
    contract::editor_display(ed)?;
    let done: bool = nondet();
    edit::tty_pending(true);
    ghost_set(NEWLINE, Some(done));
    Ok(done)
}

// ---- the roots
fn begin() {
    ghost_set(ACCEPTED, false);
    ghost_set(NEWLINE, None::<bool>);
    ghost_set(BEFORE, 0usize);
    ghost_set(AFTER, 0usize);
    ghost_set(WROTE, false);
    ghost_set(FLUSHED, false);
    ghost_set(GROUPS, 0usize);
}
pub fn used() { ghost_set(WROTE, true); }
pub fn flushed() { ghost_set(FLUSHED, true); }
/// what the completer is told
pub fn event<C: EditorContext>(k: &EventKind, ed: &Editor<C>) {
    if edit::is_lite() {
        return; // the order of events is that of `KeyMap::handle_key`, see `root_key_emacs`
    }
    match k {
        EventKind::BeforeKey(_) => {
            check(ghost_get::<usize>(BEFORE) == 0, "C15 a key is announced once");
            check(ghost_get::<usize>(AFTER) == 0, "C15 a key is announced before it is reported done");
            check(!ghost_get::<bool>(WROTE), "C15 a key is announced before anything is drawn");
            check(ghost_get::<Vec<char>>(AFTER_TEXT) == *chars(ed.current_buffer()), "C15 a key is announced before anything is changed");
            ghost_set(BEFORE, 1usize);
        }
        EventKind::AfterKey(_) => {
            check(ghost_get::<usize>(BEFORE) == 1, "C15 a key is announced before it is reported done");
            check(ghost_get::<usize>(AFTER) == 0, "C15 a key is reported done once");
            ghost_set(AFTER, 1usize);
            ghost_set(WROTE, false);
            ghost_set(FLUSHED, false);
            ghost_set(AFTER_TEXT, copy(chars(ed.current_buffer())));
            ghost_set(AFTER_CURSOR, ed.cursor());
        }
        EventKind::BeforeComplete => {}
    }
}
fn is_c(k: Key, x: char) -> bool { match k { Key::Ctrl(c) => c == x, _ => false } }
fn end(ed: &Ed, s: &Snap, key: Key, empty: bool, r: &io::Result<bool>) {
    let t = chars(ed.current_buffer());
    if ghost_get::<bool>(FAILED_) {
        check(r.is_err(), "C08 a failed terminal operation is reported");
    }
    check_history(ed, s);
    match r {
        Ok(done) => {
            check(hist_loc_ok(ed), "C01 history location in range after the key");
            check(cursor_ok(ed), "C02 cursor within the text after the key");
            check(!ed.no_eol || t.len() == 0 || ed.cursor() < t.len(), "C02 the cursor is on a character in normal mode");
            check_shown(ed, s);
            check(ghost_get::<usize>(BEFORE) == 1 && ghost_get::<usize>(AFTER) == 1, "C15 a key is announced and reported done");
            check(!ghost_get::<bool>(WROTE) && ghost_get::<usize>(AFTER_CURSOR) == ed.cursor() && ghost_get::<Vec<char>>(AFTER_TEXT) == *t, "C15 nothing is changed or drawn after a key is reported done");
            check(ghost_get::<bool>(FLUSHED), "C15 the terminal is flushed after a key is reported done");
            check(!is_c(key, 'c'), "C14 Ctrl-C never succeeds");
            check(!(is_c(key, 'd') && empty), "C14 Ctrl-D on an empty line never succeeds");
            if *done {
                check(match key { Key::Char('\n') => true, _ => false }, "C14 only Enter completes a line");
                check(match ghost_get::<Option<bool>>(NEWLINE) { Some(d) => d, None => false }, "C14 a line is complete only if ending it says so");
            }
            if ghost_get::<bool>(ACCEPTED) {
                check(match key { Key::Right | Key::Ctrl('f') => true, _ => false }, "C16 a suggestion is only accepted by Right and Ctrl-F");
            }
        }
        Err(e) => {
            if !ghost_get::<bool>(FAILED_) {
                let k = e.kind();
                check(is_c(key, 'c') || is_c(key, 'd') && empty, "C14 only Ctrl-C and Ctrl-D end the line with an error");
                if is_c(key, 'c') {
                    check(match k { io::ErrorKind::Interrupted => true, _ => false }, "C14 Ctrl-C is reported as an interrupt");
                }
                if is_c(key, 'd') {
                    check(match k { io::ErrorKind::UnexpectedEof => true, _ => false }, "C14 Ctrl-D is reported as the end of input");
                }
            }
        }
    }
}
const FAILED_: usize = 6;
/// one kind of key at a time
fn key_class(key: Key, digit: usize) {
    match case(digit, 8) {
        0 => assume(match key { Key::Ctrl('c') => true, _ => false }),
        1 => assume(match key { Key::Ctrl('d') => true, _ => false }),
        2 => assume(match key { Key::Ctrl('f') | Key::Right => true, _ => false }),
        3 => assume(match key { Key::Ctrl('c') | Key::Ctrl('d') | Key::Ctrl('f') => false, Key::Ctrl(_) => true, _ => false }),
        4 => assume(match key { Key::Char('\n') => true, _ => false }),
        5 => assume(match key { Key::Char('\n') => false, Key::Char(_) => true, _ => false }),
        6 => assume(match key { Key::Alt(_) => true, _ => false }),
        _ => assume(match key { Key::Ctrl(_) | Key::Char(_) | Key::Alt(_) | Key::Right => false, _ => true }),
    }
}
pub fn root_key_emacs(m: &mut Emacs, key: Key, ed: &mut Ed, h: &mut VComp, k: usize) {
    partition(&ed.context().history.share);
    key_class(key, 2);
    let s = start_light(ed, k);
    begin();
    ghost_set(AFTER_TEXT, copy(chars(ed.current_buffer())));
    assume(!ed.no_eol);
    let empty = ed.current_buffer().num_chars() == 0;
    let r = m.handle_key(key, ed, h);
    end(ed, &s, key, empty, &r);
    if r.is_ok() && !ghost_get::<bool>(ACCEPTED) {
        bound(ed, &s, key);
    }
    if r.is_ok() {
        check(!ed.no_eol, "C21 the cursor is not restricted without Vi");
        check(ghost_get::<usize>(GROUPS) == 0, "C22 no undo group is left open");
    }
}
/// what the documented key bindings do to the text and the cursor
fn bound(ed: &Ed, s: &Snap, key: Key) {
    let (c, n) = (s.cursor, s.text.len());
    let left = if c > 0 { c - 1 } else { 0 };
    let right = if c < n { c + 1 } else { n };
    match key {
        Key::Char('\n') | Key::Char('\t') => {}
        Key::Char(x) => exact(ed, s, c, c, &[x], c + 1),
        Key::Ctrl('h') | Key::Backspace => exact(ed, s, left, c, &[], left),
        Key::Ctrl('d') | Key::Delete => exact(ed, s, c, right, &[], c),
        Key::Ctrl('u') => exact(ed, s, 0, c, &[], 0),
        Key::Ctrl('k') => exact(ed, s, c, n, &[], c),
        Key::Ctrl('a') | Key::Home => exact(ed, s, c, c, &[], 0),
        Key::Ctrl('e') | Key::End => exact(ed, s, c, c, &[], n),
        Key::Ctrl('b') | Key::Left => exact(ed, s, c, c, &[], left),
        Key::Ctrl('f') | Key::Right => exact(ed, s, c, c, &[], right),
        Key::Ctrl('l') => exact(ed, s, c, c, &[], c),
        _ => {}
    }
}
/// The keys that end a line, whatever is pending in the Vi key map.
pub fn root_key_vi_end(m: &mut Vi, key: Key, ed: &mut Ed, h: &mut VComp, k: usize) {
    partition(&ed.context().history.share);
    let s = start_light(ed, k);
    let empty = ed.current_buffer().num_chars() == 0;
    match case(2, 3) {
        0 => assume(match key { Key::Ctrl('c') => true, _ => false }),
        1 => assume(empty && match key { Key::Ctrl('d') => true, _ => false }),
        _ => assume(match key { Key::Char('\n') => true, _ => false }),
    }
    begin();
    let n = ed.current_buffer().num_chars();
    assume(!ed.no_eol || n == 0 || ed.cursor() < n);
    ghost_set(AFTER_TEXT, copy(chars(ed.current_buffer())));
    let r = m.handle_key(key, ed, h);
    end(ed, &s, key, empty, &r);
}
/// a kind of key the Vi key map is given; those of its characters that mean something of their own are told apart
fn is_special(key: Key) -> bool {
    match key {
        Key::Char('\n') | Key::Char('\t') | Key::Ctrl('c') | Key::Ctrl('r') | Key::Ctrl('s') => true,
        _ => false,
    }
}
fn vi_key(key: Key, class: usize) {
    match class {
        0 => assume(match key { Key::Ctrl('r') | Key::Ctrl('s') => true, _ => false }),
        1 => assume(match key { Key::Ctrl('f') => true, _ => false }),
        35 => assume(match key { Key::Right => true, _ => false }),
        2 => assume(match key { Key::Esc | Key::Ctrl('[') => true, _ => false }),
        3 => assume(match key { Key::Up | Key::Down => true, _ => false }),
        4 => assume(match key { Key::Ctrl('f') | Key::Ctrl('[') | Key::Right | Key::Esc | Key::Up | Key::Down | Key::Char(_) => false, _ => !is_special(key) }),
        5 => assume(match key { Key::Char(_) => !is_special(key), _ => false }),
        25 => assume(match key { Key::Char('1'..='9') => true, _ => false }),
        30 => assume(match key {
            Key::Char('e') | Key::Char('E') | Key::Char('.') | Key::Char('i') | Key::Char('a') | Key::Char('I') | Key::Char('A') | Key::Char('s') | Key::Char('r') | Key::Char('d') | Key::Char('c') | Key::Char('D') | Key::Char('C')
            | Key::Char('h') | Key::Char('l') | Key::Char(' ') | Key::Char('k') | Key::Char('j') | Key::Char('t') | Key::Char('T') | Key::Char('f') | Key::Char('F') | Key::Char('g') | Key::Char(';') | Key::Char(',') | Key::Char('w') | Key::Char('W')
            | Key::Char('b') | Key::Char('B') | Key::Char('0'..='9') | Key::Char('^') | Key::Char('$') | Key::Char('x') | Key::Char('~') | Key::Char('u') => false,
            Key::Char(_) => !is_special(key), _ => false }),
        31 => assume(match key { Key::Char('e') | Key::Char('E') => false, Key::Char(_) => !is_special(key), _ => false }),
        _ => check(false, "C21 every kind of key is one of these"),
    }
}
/// which stack of modes with which kind of key, or which character
fn vi_case(n: usize) -> (usize, usize, char) {
    match n {
        0 => (0, 0, '\0'),
        1 => (0, 1, '\0'),
        2 => (0, 35, '\0'),
        3 => (0, 2, '\0'),
        4 => (0, 3, '\0'),
        5 => (0, 4, '\0'),
        6 => (0, 100, 'e'),
        7 => (0, 100, 'E'),
        8 => (0, 100, '.'),
        9 => (0, 100, 'i'),
        10 => (0, 100, 'a'),
        11 => (0, 100, 'I'),
        12 => (0, 100, 'A'),
        13 => (0, 100, 's'),
        14 => (0, 100, 'r'),
        15 => (0, 100, 'd'),
        16 => (0, 100, 'c'),
        17 => (0, 100, 'D'),
        18 => (0, 100, 'C'),
        19 => (0, 100, 'h'),
        20 => (0, 100, 'l'),
        21 => (0, 100, ' '),
        22 => (0, 100, 'k'),
        23 => (0, 100, 'j'),
        24 => (0, 100, 't'),
        25 => (0, 100, 'T'),
        26 => (0, 100, 'f'),
        27 => (0, 100, 'F'),
        28 => (0, 100, 'g'),
        29 => (0, 100, ';'),
        30 => (0, 100, ','),
        31 => (0, 100, 'w'),
        32 => (0, 100, 'W'),
        33 => (0, 100, 'b'),
        34 => (0, 100, 'B'),
        35 => (0, 100, '0'),
        36 => (0, 100, '^'),
        37 => (0, 100, '$'),
        38 => (0, 100, 'x'),
        39 => (0, 100, '~'),
        40 => (0, 100, 'u'),
        41 => (0, 25, '\0'),
        42 => (0, 30, '\0'),
        43 => (1, 0, '\0'),
        44 => (1, 1, '\0'),
        45 => (1, 35, '\0'),
        46 => (1, 2, '\0'),
        47 => (1, 3, '\0'),
        48 => (1, 4, '\0'),
        49 => (1, 5, '\0'),
        50 => (3, 0, '\0'),
        51 => (3, 1, '\0'),
        52 => (3, 35, '\0'),
        53 => (3, 2, '\0'),
        54 => (3, 3, '\0'),
        55 => (3, 4, '\0'),
        56 => (3, 100, 'e'),
        57 => (3, 100, 'E'),
        58 => (3, 100, '.'),
        59 => (3, 100, 'i'),
        60 => (3, 100, 'a'),
        61 => (3, 100, 'I'),
        62 => (3, 100, 'A'),
        63 => (3, 100, 's'),
        64 => (3, 100, 'r'),
        65 => (3, 100, 'd'),
        66 => (3, 100, 'c'),
        67 => (3, 100, 'D'),
        68 => (3, 100, 'C'),
        69 => (3, 100, 'h'),
        70 => (3, 100, 'l'),
        71 => (3, 100, ' '),
        72 => (3, 100, 'k'),
        73 => (3, 100, 'j'),
        74 => (3, 100, 't'),
        75 => (3, 100, 'T'),
        76 => (3, 100, 'f'),
        77 => (3, 100, 'F'),
        78 => (3, 100, 'g'),
        79 => (3, 100, ';'),
        80 => (3, 100, ','),
        81 => (3, 100, 'w'),
        82 => (3, 100, 'W'),
        83 => (3, 100, 'b'),
        84 => (3, 100, 'B'),
        85 => (3, 100, '0'),
        86 => (3, 100, '^'),
        87 => (3, 100, '$'),
        88 => (3, 100, 'x'),
        89 => (3, 100, '~'),
        90 => (3, 100, 'u'),
        91 => (3, 25, '\0'),
        92 => (3, 30, '\0'),
        93 => (8, 0, '\0'),
        94 => (8, 1, '\0'),
        95 => (8, 35, '\0'),
        96 => (8, 2, '\0'),
        97 => (8, 3, '\0'),
        98 => (8, 4, '\0'),
        99 => (8, 100, 'e'),
        100 => (8, 100, 'E'),
        101 => (8, 100, '.'),
        102 => (8, 100, 'i'),
        103 => (8, 100, 'a'),
        104 => (8, 100, 'I'),
        105 => (8, 100, 'A'),
        106 => (8, 100, 's'),
        107 => (8, 100, 'r'),
        108 => (8, 100, 'd'),
        109 => (8, 100, 'c'),
        110 => (8, 100, 'D'),
        111 => (8, 100, 'C'),
        112 => (8, 100, 'h'),
        113 => (8, 100, 'l'),
        114 => (8, 100, ' '),
        115 => (8, 100, 'k'),
        116 => (8, 100, 'j'),
        117 => (8, 100, 't'),
        118 => (8, 100, 'T'),
        119 => (8, 100, 'f'),
        120 => (8, 100, 'F'),
        121 => (8, 100, 'g'),
        122 => (8, 100, ';'),
        123 => (8, 100, ','),
        124 => (8, 100, 'w'),
        125 => (8, 100, 'W'),
        126 => (8, 100, 'b'),
        127 => (8, 100, 'B'),
        128 => (8, 100, '0'),
        129 => (8, 100, '^'),
        130 => (8, 100, '$'),
        131 => (8, 100, 'x'),
        132 => (8, 100, '~'),
        133 => (8, 100, 'u'),
        134 => (8, 25, '\0'),
        135 => (8, 30, '\0'),
        136 => (2, 0, '\0'),
        137 => (2, 1, '\0'),
        138 => (2, 35, '\0'),
        139 => (2, 2, '\0'),
        140 => (2, 3, '\0'),
        141 => (2, 4, '\0'),
        142 => (2, 5, '\0'),
        143 => (4, 0, '\0'),
        144 => (4, 1, '\0'),
        145 => (4, 35, '\0'),
        146 => (4, 2, '\0'),
        147 => (4, 3, '\0'),
        148 => (4, 4, '\0'),
        149 => (4, 5, '\0'),
        150 => (6, 0, '\0'),
        151 => (6, 1, '\0'),
        152 => (6, 35, '\0'),
        153 => (6, 2, '\0'),
        154 => (6, 3, '\0'),
        155 => (6, 4, '\0'),
        156 => (6, 5, '\0'),
        157 => (9, 0, '\0'),
        158 => (9, 1, '\0'),
        159 => (9, 35, '\0'),
        160 => (9, 2, '\0'),
        161 => (9, 3, '\0'),
        162 => (9, 4, '\0'),
        163 => (9, 5, '\0'),
        164 => (5, 0, '\0'),
        165 => (5, 1, '\0'),
        166 => (5, 35, '\0'),
        167 => (5, 2, '\0'),
        168 => (5, 3, '\0'),
        169 => (5, 4, '\0'),
        170 => (5, 100, 'e'),
        171 => (5, 100, 'E'),
        172 => (5, 31, '\0'),
        173 => (7, 0, '\0'),
        174 => (7, 1, '\0'),
        175 => (7, 35, '\0'),
        176 => (7, 2, '\0'),
        177 => (7, 3, '\0'),
        178 => (7, 4, '\0'),
        179 => (7, 100, 'e'),
        180 => (7, 100, 'E'),
        181 => (7, 31, '\0'),
        182 => (10, 0, '\0'),
        183 => (10, 1, '\0'),
        184 => (10, 35, '\0'),
        185 => (10, 2, '\0'),
        186 => (10, 3, '\0'),
        187 => (10, 4, '\0'),
        188 => (10, 100, 'e'),
        189 => (10, 100, 'E'),
        _ => (10, 31, '\0'),
    }
}
const VI_CASES: usize = 191;
pub fn root_key_vi(m: &mut Vi, key: Key, ed: &mut Ed, h: &mut VComp) {
    shape_vi(ed);
    let (id, class, c) = vi_case(case(1, VI_CASES));
    let key = if class == 100 { Key::Char(c) } else { key };
    if class != 100 {
        vi_key(key, class);
    }
    if c == ';' || c == ',' {
        partition(peek::<Vi, Option<(char, SCharMovement)>>(m, "last_char_movement"));
    }
    assume_inv_vi(ed);
    edit::tty_init();
    begin();
    ghost_set(SOME_KEYS, nondet::<Vec<Key>>());
    if c == '.' {
        // with the mode shown in the prompt
        assume(prompt_mode(ed).is_some());
    }
    ghost_set(ANY_EOL_OK, false);
    ghost_set(ANY_CURSOR, 0usize);
    ghost_set(ANY_TEXT, Vec::<char>::new());
    ghost_set(AFTER_TEXT, copy(chars(ed.current_buffer())));
    assume_vi(m, ed, id);
    let n = ed.current_buffer().num_chars();
    assume(!ed.no_eol || n == 0 || ed.cursor() < n);
    let (text, at) = (copy(chars(ed.current_buffer())), ed.cursor());
    edit::lite(true);
    // keys that are handled before the key map is asked are those of `root_key_emacs`
    let ok = if class == 0 { m.handle_key(key, ed, h).is_ok() } else { m.handle_key_core(key, ed).is_ok() };
    if ghost_get::<bool>(FAILED_) {
        check(!ok, "C08 a failed terminal operation is reported");
    }
    if ok {
        let n = ed.current_buffer().num_chars();
        check(hist_loc_ok(ed), "C01 history location in range after the key");
        check(ed.cursor() <= n, "C02 cursor within the text after the key");
        // brought into the text by the last redraw, or still as the key found it
        if !(ghost_get::<bool>(ANY_EOL_OK) && same(&ghost_get::<Vec<char>>(ANY_TEXT), chars(ed.current_buffer())) && ghost_get::<usize>(ANY_CURSOR) == ed.cursor()) {
            check(!ed.no_eol || n == 0 || ed.cursor() < n, "C02 the cursor is on a character in normal mode");
        }
        let t = chars(ed.current_buffer());
        let motion = match id {
            NORMAL => match c {
                'e' | 'E' | 'h' | 'l' | ' ' | 't' | 'T' | 'f' | 'F' | 'g' | ';' | ',' | 'w' | 'W' | 'b' | 'B' | '0' | '^' | '$' => true,
                _ => class == 35 || class == 25,
            },
            4 | 5 => class == 5 || class == 31 || class == 100,
            _ => class == 35 && id == INSERT,
        };
        if motion {
            check(text == *t, "C06 a motion leaves the text unchanged");
        }
        if id == INSERT && class == 5 {
            if let Key::Char(x) = key {
                let mut v = text[..at].to_vec();
                v.push(x);
                v.extend_from_slice(&text[at..]);
                check(v == *t, "C30 a character typed in insert mode is inserted at the cursor");
                check(ed.cursor() == at + 1, "C30 the cursor is where the operation puts it");
            }
        }
        check_vi(m, ed);
        if class == 2 {
            let esc = match key { Key::Esc => true, _ => false };
            check(!esc || stack(m).len() == 0, "C21 Esc goes to normal mode");
        }
    }
}
/// A redraw, as far as the key map is concerned: the cursor is brought into the text, or the terminal fails.
pub fn lite_display(ed: &mut Ed) -> io::Result<()> {
    let n = ed.current_buffer().num_chars();
    ghost_set(ANY_EOL_OK, ed.no_eol);
    if ed.no_eol {
        let c: usize = nondet();
        if n == 0 {
            assume(c == 0);
        } else {
            assume(c <= ed.cursor() && c < n);
        }
        *poke::<Ed, usize>(ed, "cursor") = c;
    } else {
        let c = poke::<Ed, usize>(ed, "cursor");
        if n < *c {
            *c = n;
        }
    }
    ghost_set(ANY_TEXT, copy(chars(ed.current_buffer())));
    ghost_set(ANY_CURSOR, ed.cursor());
    if nondet() {
        edit::tty_fail();
        return Err(nondet());
    }
    Ok(())
}
fn shown_insert(ed: &Ed) -> bool {
    match prompt_mode(ed) {
        Some(m) => is_insert(m),
        None => false,
    }
}
/// A key handled while a key is handled: it keeps what holds between keys.  Keys repeated by leaving insert mode
/// are edits, which stay in insert mode (assumed); Esc goes to normal mode; any other key to any stack of modes.
pub fn rec_vi(m: &mut Vi, key: Key, ed: &mut Ed) -> io::Result<()> {
    pre(ed);
    check_vi(m, ed);
    let kept = ghost_get::<usize>(START) == INSERT;
    *poke::<Vi, u32>(m, "count") = nondet();
    *poke::<Vi, u32>(m, "secondary_count") = nondet();
    *poke::<Vi, u32>(m, "last_count") = nondet();
    *poke::<Vi, Vec<Key>>(m, "last_command") = ghost_get(SOME_KEYS);
    *poke::<Vi, Vec<Key>>(m, "current_command") = ghost_get(SOME_KEYS);
    *poke::<Vi, bool>(m, "movement_reset") = nondet();
    if !kept {
        *poke::<Vi, Option<Key>>(m, "last_insert") = nondet();
        *poke::<Vi, Option<Key>>(m, "current_insert") = nondet();
        let esc = match key { Key::Esc => true, _ => false };
        if esc {
            *poke::<Vi, SModeStack>(m, "mode_stack") = SModeStack(vec![]);
            ed.no_eol = true;
            if let Some(s) = &mut poke::<Ed, Prompt>(ed, "prompt").vi_status {
                s.mode = ViPromptMode::Normal;
            }
            ghost_set(SHAPE, NORMAL);
        } else {
            let v: Vec<SMode> = nondet();
            ghost_set(ANY_STACK, copy(&v));
            *poke::<Vi, SModeStack>(m, "mode_stack") = SModeStack(v);
            ed.no_eol = nondet();
            if let Some(s) = &mut poke::<Ed, Prompt>(ed, "prompt").vi_status {
                s.mode = nondet();
            }
            ghost_set(ANY_EOL, ed.no_eol);
            ghost_set(ANY_INSERT, shown_insert(ed));
            ghost_set(SHAPE, ANY);
        }
        ghost_set(GROUPS, 0usize);
    }
    // wherever the line is, its text is arbitrary
    any_text(ed);
    let n = ed.current_buffer().num_chars();
    let c: usize = nondet();
    assume(c <= n);
    *poke::<Ed, usize>(ed, "cursor") = c;
    ghost_set(ANY_TEXT, copy(chars(ed.current_buffer())));
    ghost_set(ANY_CURSOR, c);
    ghost_set(ANY_EOL_OK, true);
    if nondet() {
        edit::tty_fail();
        return Err(nondet());
    }
    Ok(())
}

#[derive(Clone, Copy)]
pub enum SMoveMode { Keyword, Whitespace }
#[derive(Clone, Copy)]
pub enum SMoveDir { Left, Right }
fn word_motion(ed: &mut Ed, k: usize, name: &str, m: SMoveMode, d: SMoveDir, n: usize) {
    let s = start_light(ed, k);
    let r: io::Result<()> = if name.len() == 15 {
        private::<(VCtx,), _, _>("vi_vi_move_word", (&mut *ed, m, d, n))
    } else {
        private::<(VCtx,), _, _>("vi_vi_move_word_end", (&mut *ed, m, d, n))
    };
    common(ed, &s, r.is_ok());
    same_text(ed, &s);
    if r.is_ok() {
        check(ghost_get::<bool>(8), "C07 the line is shown");
    }
}
pub fn root_def_vi_vi_move_word(ed: &mut Ed, k: usize, m: SMoveMode, d: SMoveDir, n: usize) { word_motion(ed, k, "vi_vi_move_word", m, d, n) }
pub fn root_def_vi_vi_move_word_end(ed: &mut Ed, k: usize, m: SMoveMode, d: SMoveDir, n: usize) { word_motion(ed, k, "vi_vi_move_word_end", m, d, n) }
pub fn root_def_vi_find_char(b: &Buffer, start: usize, c: char, n: usize) {
    assume(n > 0);
    let r: Option<usize> = private::<(), _, _>("vi_find_char", (b, start, c, n));
    if let Some(i) = r {
        check(i < b.num_chars(), "C01 a character is found within the text searched");
        check(start <= i, "C01 a character is found from the start on");
    }
}
pub fn root_def_vi_find_char_rev(b: &Buffer, start: usize, c: char, n: usize) {
    assume(n > 0);
    assume(start <= b.num_chars());
    let r: Option<usize> = private::<(), _, _>("vi_find_char_rev", (b, start, c, n));
    if let Some(i) = r {
        check(i < start, "C01 a character is found within the text searched");
    }
}

pub fn root_def_buffer_last_arg(b: &Buffer) {
    if let Some(w) = b.last_arg() {
        check(w.len() > 0 && w.len() <= b.num_chars(), "C01 the last word is no longer than the text");
    }
}
