//! Roots on `History`: incremental saving (C09), limits (C10), saving (C11), pushing (C12).
use crate::model::{fs_failed, fs_init, fs_mode, fs_opens, fs_pending, fs_text};
use crate::*;
use std::collections::VecDeque;
fn f<'a, F>(h: &'a History, n: &str) -> &'a F { peek::<History, F>(h, n) }
fn text(b: &Buffer) -> String { String::from(b.clone()) }

/// C12, C10: a push in memory
pub fn root_hist_push(h: &mut History, b: Buffer) {
    assume(h.len() < BIG);
    assume(!h.inc_append || f::<Option<String>>(h, "file_name").is_none());
    let max = *f::<usize>(h, "max_buffers_size");
    let n = h.len();
    match case(0, 3) {
        0 => assume(n < max),
        1 => assume(n == max),
        _ => assume(n > max),
    }
    let old: Vec<Buffer> = h.buffers.iter().cloned().collect();
    let item = b.clone();
    let dup = !h.append_duplicate_entries && n > 0 && text(&h.buffers[n - 1]) == text(&b);
    let r = h.push(b);
    check(r.is_ok(), "C12 a push succeeds");
    if !dup || n <= max {
        check(h.len() <= max, "C10 the number of entries is at most the maximum after a push");
    }
    if dup {
        check(h.len() == n, "C12 a rejected duplicate leaves the history untouched");
    } else {
        if max > 0 {
            check(h.len() > 0, "C12 the pushed line is stored");
            check(text(&h.buffers[h.len() - 1]) == text(&item), "C12 the pushed line is the newest entry");
            check(h.len() == if n < max { n + 1 } else { max }, "C10 entries are evicted only while the limit is exceeded");
        }
        let k: usize = nondet();
        if k + 1 < h.len() {
            let gone = n + 1 - h.len();
            check(h.buffers[k] == old[k + gone], "C10 only the oldest entries are evicted and the rest keep their order");
        }
    }
}
/// C09: a push with incremental saving
fn push_file(h: &mut History, b: Buffer) {
    fs_init();
    assume(h.len() < BIG);
    assume(h.inc_append && f::<Option<String>>(h, "file_name").is_some());
    let max = *f::<usize>(h, "max_buffers_size");
    let n = h.len();
    let item = text(&b);
    let dup = !h.append_duplicate_entries && n > 0 && text(&h.buffers[n - 1]) == item;
    let share = h.share;
    let _ = h.push(b);
    if dup {
        check(fs_opens() == 0, "C09 a rejected duplicate writes nothing");
    } else if !fs_failed() {
        check(fs_opens() == 1, "C09 the file is opened for appending exactly once");
        let mut want = item;
        want.push('\n');
        check(fs_text() == want, "C09 exactly the line and a newline are appended");
    }
    if !share && (!dup || n <= max) {
        check(h.len() <= max, "C10 the number of entries is at most the maximum after a saved push");
    }
}
pub fn root_hist_push_file(h: &mut History, b: Buffer) {
    assume(h.load_duplicates || *f::<usize>(h, "compaction_writes") < 29);
    push_file(h, b)
}
pub fn root_hist_push_dedup(h: &mut History, b: Buffer) {
    assume(!h.load_duplicates && *f::<usize>(h, "compaction_writes") >= 29);
    assume(!h.share);
    push_file(h, b)
}
pub fn root_hist_push_share(h: &mut History, b: Buffer) {
    assume(!h.load_duplicates && *f::<usize>(h, "compaction_writes") >= 29);
    assume(h.share);
    push_file(h, b)
}
/// C11: saving
pub fn root_hist_save(h: &mut History) {
    fs_init();
    assume(!h.inc_append);
    let maxf = *f::<usize>(h, "max_file_size");
    let r = h.commit_to_file_path("x");
    if r.is_ok() {
        check(!fs_failed(), "C11 saving succeeds only when every file operation did");
        check(!fs_pending(), "C11 everything is flushed before success is reported");
        check(fs_mode() == 2, "C11 success is reported only when the file was created");
        check(h.len() <= maxf, "C10 at most the file maximum of entries is written");
    }
}
pub fn root_def_history_load_history(h: &mut History, append: bool) {
    let max = *peek::<History, usize>(h, "max_buffers_size");
    assume(h.len() < BIG);
    assume(h.len() <= max);
    let r = h.load_history(append);
    check(h.len() <= max, "C10 the number of entries is at most the maximum after loading");
    let _ = r;
}
pub fn root_def_history_remove_duplicates(h: &mut History, s: &str) {
    let n = h.len();
    assume(n < BIG);
    h.remove_duplicates(s);
    check(h.len() <= n, "C10 removing duplicates adds nothing");
}

pub fn root_hist_load_file(h: &mut History, append: bool) {
    let max = *peek::<History, usize>(h, "max_buffers_size");
    assume(h.len() < BIG);
    assume(h.len() <= max);
    let _ = h.load_history_file("x", append);
    check(h.len() <= max, "C10 the number of entries is at most the maximum after loading a given file");
}
pub fn root_hist_set_file(h: &mut History) {
    let max = *peek::<History, usize>(h, "max_buffers_size");
    assume(h.len() < BIG);
    assume(h.len() <= max);
    let _ = h.set_file_name_and_load_history("x");
    check(h.len() <= max, "C10 the number of entries is at most the maximum after choosing a history file");
}
