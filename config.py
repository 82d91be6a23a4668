"""Which roots and rules decide which property."""
LADDER = {"quick": ["6,12,30", "20,30,60", "60,90,150"], "thorough": ["6,12,30", "20,30,60", "60,90,150", "200,300,400"]}
TRUSTED = [
    "rustc nightly: type checking, trait resolution and MIR construction of /repo and the standard library",
    "the analyser in /verif/tool (abstract interpreter, linear-arithmetic domain, models of std collections, strings and I/O in tool/src/prims.rs and harness/src/model.rs)",
    "the harness roots in /verif/harness/src, which state each obligation",
]
ROOT_OPTS = {}
# heavy roots, split over several processes
SHARDS = {"root_def_editor_display_impl": 8, "root_key_vi": 16, "root_key_emacs": 4, "root_ed_search": 4, "root_ed_complete": 4}
ED_LADDER = {"quick": ["200,300,400", "400,600,800", "800,1200,1600"], "thorough": ["200,300,400", "400,600,800", "800,1200,1600", "1600,2400,3200"]}
ROOT_LADDER = {"root_def_editor_display_impl": ["2,3,4", "6,12,30"]}
# what a root costs, roughly (seconds); the expensive ones start first
COST = {"root_def_editor_display_impl": 300, "root_key_vi": 250, "root_key_emacs": 60, "root_ed_del_word": 30, "root_ed_complete": 40, "root_ed_search": 10, "root_ed_up": 10}
BUF = ["root_buf_insert", "root_buf_remove", "root_buf_truncate", "root_buf_copy", "root_buf_insert_from", "root_buf_group", "root_buf_nothing", "root_buf_nothing_redo", "root_buf_nested"] + ["root_buf_%s%d" % (n, k) for n in ("two", "revert") for k in range(4)]
ED = ["root_ed_" + n for n in ("left right to home end display clear flush search up down first last undo redo revert insert insert_str insert_chars bs del del_all_before del_all_after del_until del_until_incl del_word accept newline new into prompt vi_mode skip_hint complete").split()]
EDC = ED + ["root_def_editor_display", "root_def_editor_display_impl"]
KEY = ["root_key_emacs", "root_key_vi_end", "root_key_vi"]
KEYDEFS = ["root_def_vi_vi_move_word", "root_def_vi_vi_move_word_end"]
DEFS = ["root_def_" + n for n in ("buffer_range_width buffer_lines util_last_prompt_line_width display_impl_calc_width editor_print_completion_list util_find_longest_common_prefix history_search_index history_get_history_subset history_get_newest_match history_remove_duplicates history_load_history cursorposition_get").split()]
AI = "abstract interpretation of the MIR from every entry point with arbitrary inputs; every assertion of the root and every panic edge is an obligation, discharged only if it follows from the path facts on all abstract paths"
AIT = "abstract interpretation of rustc MIR (relational integer/sequence domain)"
PROPS = {
    "C03": {"roots": BUF, "level": "proof", "rule": AI, "technique": AIT, "floor": 8,
            "note": "all assertions of the buffer roots are discharged for arbitrary texts, positions and action histories"},
    "C04": {"roots": BUF, "level": "proof", "rule": AI, "technique": AIT, "floor": 2,
            "note": "every public editing method of Buffer, arbitrary text and undo history"},
    "C09": {"roots": ["root_hist_push_file", "root_hist_push_dedup", "root_hist_push_share"], "level": "proof", "rule": AI, "technique": AIT, "floor": 3,
            "note": "file system replaced by a model of append/overwrite effects; arbitrary history contents and settings"},
    "C10": {"roots": ["root_hist_push", "root_hist_push_file", "root_hist_push_dedup", "root_hist_save", "root_def_history_load_history", "root_def_history_remove_duplicates", "root_hist_load_file", "root_hist_set_file"], "level": "proof", "rule": AI, "technique": AIT, "floor": 5,
            "note": "arbitrary history contents, limits and file contents"},
    "C11": {"roots": ["root_hist_save"], "level": "proof", "rule": AI, "technique": AIT, "floor": 2,
            "note": "every I/O call may fail; a failure that leaves the file incomplete must be returned"},
    "C12": {"roots": ["root_hist_push"], "level": "proof", "rule": AI, "technique": AIT, "floor": 2,
            "note": "arbitrary history contents and settings"},
    "C01": {"roots": EDC + DEFS + BUF[:9] + KEY + KEYDEFS + ["root_def_buffer_last_arg"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 60,
            "undecided": [r"root_def_vi_find_char@.*: a character is found from the start on", r"root_key_vi@[012]\.39: .*(insertion index out of bounds|unwrap_failed|has a direction|history location in range|insert_raw: attempt to add|delete_after_cursor: attempt to add|move_cursor_right: attempt to add)"],
            "note": "every public editing operation of Editor and Buffer and every key in Emacs and Vi mode, from any state that satisfies the invariant; whether ~ stays within the text is not decided"},
    "C02": {"roots": EDC + KEY + KEYDEFS, "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 25,
            "note": "every public editing operation of Editor, from any state that satisfies the invariant"},
    "C05": {"roots": EDC + KEY[:2] + KEYDEFS, "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 25,
            "note": "an arbitrary history entry is compared before and after every public editing operation"},
    "C06": {"roots": EDC + KEYDEFS, "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 10,
            "note": "motions, redraws, mode changes: the text afterwards is the text before"},
    "C07": {"roots": EDC + KEY[:2] + KEYDEFS, "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 25,
            "note": "the text and cursor of the last redraw are those of the editor, and the terminal has been flushed since the last write"},
    "C08": {"roots": EDC + KEY + KEYDEFS + ["root_read_keys"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 15,
            "note": "every terminal call may fail; a failure must be returned"},
    "C24": {"roots": ["root_ed_into", "root_ed_new", "root_read_keys"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 1,
            "note": "the returned string is the text being edited, for every shape of the editor"},
    "C14": {"roots": KEY[:2] + ["root_ed_newline"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 6,
            "note": "every key in Emacs mode, the keys that end a line in Vi mode, and ending a line itself, from any state of the editor"},
    "C15": {"roots": KEY[:2] + ["root_ed_complete"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 6,
            "note": "the events of every key are counted and compared with what was changed and drawn"},
    "C16": {"roots": ["root_ed_" + n for n in "left right to home end display clear flush search up down first last accept newline".split()] + ["root_key_emacs"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 9,
            "note": "motions, searching and browsing leave the new line as it is; accepting gives exactly the text that was shown; Enter outside a search takes nothing from the suggestion; of the Emacs keys only Right and Ctrl-F accept"},
    "C30": {"roots": ED + ["root_key_emacs", "root_key_vi"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 30,
            "note": "text and cursor after every editing operation and every Emacs editing key are compared with what the operation names; Vi: characters typed in insert mode"},
    "C31": {"roots": ["root_ed_" + n for n in "up down first last search".split()], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 5,
            "note": "from any state of the editor and of the history"},
    "C21": {"roots": ["root_key_vi"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 4,
            "note": "every key in every stack of modes of the Vi key map, with the redraw and the repeated key replaced by what they guarantee"},
    "C22": {"roots": ["root_key_vi", "root_key_emacs"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 3,
            "note": "undo groups opened and closed are counted over every key in every stack of modes"},
}
REACH = "call-graph reachability over rustc MIR (calls, drops, function items and closures, after monomorphisation)"
ALLOC = r"^(std|core|alloc)::"
PROPS["C13"] = {"roots": ["root_def_history_search_index__matching", "root_def_history_get_history_subset__matching", "root_def_history_get_newest_match__matching",
                          "root_def_history_search_index", "root_def_history_get_history_subset", "root_def_history_get_newest_match", "root_buf_contains", "root_buf_starts_with", "root_def_editor_display"],
    "level": "proof", "rule": AI, "technique": AIT, "floor": 8,
    "note": "which entries match is left open (an arbitrary range of positions); what is listed, suggested and drawn is shown to be among them"}
PROPS["C17"] = {"roots": ["root_buf_eq"], "reach": [
        {"sub": "reach_hash_buffer", "of": "reach_eq_buffer", "what": "what the hash of a buffer depends on"},
        {"sub": "reach_hash_history", "of": "reach_eq_history", "what": "what the hash of a history depends on"},
        {"from": "reach_hash_buffer", "what": "the hash of a buffer depends on its text, not on how it is stored", "forbid": [r"::capacity$", r"::as_ptr$", r"::addr$", r"ptr::hash$", r"^std::time", r"thread"]},
    ],
    "level": "proof", "rule": "fields read while hashing are a subset of those read while comparing, over everything reachable from the two implementations; buffers that compare equal have the same text (abstract interpretation)",
    "technique": REACH, "floor": 3, "note": "Buffer and History; ASCII and other texts, any edit history"}
PROPS["C18"] = {"roots": [], "reach": [
        {"from": "reach_editor", "what": "line editing uses the configured terminal only", "min": 60, "forbid": [
            r"^std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|try_stdin|try_stdout)$", r"^std::io::(stdio::)?(_print|_eprint)", r"std::io::(Stdin|Stdout|Stderr|StdinLock|StdoutLock|StderrLock)\b", r"std::io::stdio::",
            r"termion::(size::)?terminal_size", r"termion::(sys::)?(tty::)?(get_tty|is_tty)", r"IntoRawMode", r"RawTerminal", r"^termion::(raw|input|async|screen|scroll|event)?.*(into_raw_mode|async_stdin|DetectCursorPos)",
            r"liner::(context::)?DefaultTty", r"liner::(util::)?terminal_width", r"std::process::(Command|exit|abort)", r"^libc::.*(isatty|ioctl|tcgetattr|tcsetattr|dup2)$", r"from_raw_fd", r"IsTerminal"]}],
    "level": "proof", "rule": "no function that reaches the process's own stdin, stdout, stderr or terminal is reachable from Editor, Context and the key maps when they are used with another terminal",
    "technique": REACH, "floor": 60, "note": "what a panic prints is not followed; the user's own closures, completer and terminal are not followed"}
PROPS["C20"] = {"roots": ["root_comp_file", "root_comp_basic"], "kinds": ["C20", "C01"], "reach": [
        {"from": "reach_completers", "what": "completers only look", "min": 4, "forbid": [
            r"std::fs::(write|copy|rename|remove_file|remove_dir|remove_dir_all|create_dir|create_dir_all|hard_link|soft_link|set_permissions|set_times)$", r"std::fs::File::(create|create_new|options|set_len|set_permissions|set_times|set_modified)", r"OpenOptions.*::(write|append|create|create_new|truncate)$", r"std::fs::DirBuilder", r"std::os::unix::fs::(symlink|chown|lchown|fchown|chroot|mkfifo)",
            r"std::process::", r"std::env::(set_var|remove_var|set_current_dir)", r"std::io::(stdio::)?(_print|_eprint)$", r"std::net::"]}],
    "level": "proof", "rule": "every panic edge of the completers is an obligation of the abstract interpretation; no function that changes the file system is reachable from them",
    "technique": AIT + "; " + REACH, "floor": 5, "note": "any word, any directory content; paths are modelled as arbitrary"}
PROPS["C23"] = {"roots": ["root_words"], "kinds": ["C23", "C01"], "ladder": {"quick": ["60,90,150", "200,300,400"], "thorough": ["60,90,150", "200,300,400", "400,600,800"]}, "level": "proof", "rule": AI, "technique": AIT, "floor": 2,
    "note": "any text; that the ranges are in increasing order and disjoint is not decided"}
PROPS["C19"] = {"roots": ["root_ed_complete", "root_def_editor_delete_word_before_cursor", "root_def_editor_get_word_before_cursor", "root_def_cursorposition_get"], "ladder": ED_LADDER, "level": "proof", "rule": AI, "technique": AIT, "floor": 5,
    "note": "any text, cursor, words and candidates, whether or not a candidate is highlighted; which candidate a first completion takes is not decided"}
NOT_APPLICABLE = {
    "C25": "the screen is the result of interpreting the escape sequences that are written; which column a character lands in depends on run-time widths multiplied and divided by the terminal width, non-linear arithmetic that no sound static argument in reach bounds",
    "C26": "equivalence of n repetitions with one counted command is a relation between two runs of unbounded length, not a property of one; a static analysis of a single run cannot establish it",
    "C27": "depends on what the file system keeps when a write is cut short; the code rewrites the file in place, so there is no construct in the source (no temporary file, no rename, no synchronisation) whose use an analysis could check",
    "C28": "termination needs a ranking argument over texts, counts and undo stacks of unbounded size; the analysis over-approximates loops by invariants and says nothing about how often they run",
    "C29": "quantifies over schedules of several processes on one file; the code takes no lock, so there is nothing in the source for a static analysis to check",
}
