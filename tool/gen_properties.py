#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
ED="src/editor.rs"; BUF="src/buffer.rs"; VI="src/keymap/vi.rs"; EM="src/keymap/emacs.rs"; KM="src/keymap/mod.rs"; HI="src/history.rs"; CX="src/context.rs"; CO="src/complete.rs"; UT="src/util.rs"
p("C01","No key press makes the line editor panic",
  "Whatever keys are pressed, in either key map, and whatever the prompt, the text, the history, the completions offered and the terminal size are, handling a key never panics: no index or slice out of range, no failed unwrap, no reached unreachable!, no arithmetic underflow. The same holds for starting the editor on any initial text.",
  ["inputs","histories","configurations"],"all key sequences in Emacs and Vi mode, all prompts, initial texts, histories, completion lists, word positions and terminal widths",
  "the tests replay a few dozen fixed key sequences on short ASCII text in an 80 column terminal with an empty or tiny history",
  [ED,BUF,VI,EM,KM,UT],[("bounds kept by every editing method","src/editor.rs Editor"),("cursor clamp","src/editor.rs display_impl"),("key dispatch","src/keymap/vi.rs, emacs.rs handle_key_core")],
  [("cursor","insertion point","src/editor.rs Editor"),("cur_history_loc","history entry shown","src/editor.rs Editor"),("mode_stack","Vi modes","src/keymap/vi.rs Vi")])
p("C02","The cursor always lies within the text being edited",
  "After the editor is created and after every key that is handled without an error, the cursor is at most the number of characters of the current text; when the editor is in Vi normal mode (end-of-line position forbidden) and the text is not empty, the cursor is on a character, strictly before the end.",
  ["inputs","histories"],"all key sequences in both key maps, all texts and histories",
  "tests assert the final cursor for single examples; the bound must hold after every operation on every text, including when history browsing switches the text under the cursor",
  [ED,VI,EM],[("clamp before redraw","src/editor.rs display_impl"),("cursor updates next to each edit","src/editor.rs insert/delete/move methods")],
  [("cursor","insertion point","src/editor.rs Editor"),("no_eol","Vi normal mode restriction","src/editor.rs Editor")])
p("C03","Undoing a change restores the text exactly and redo re-applies it",
  "For every text and every insertion or removal at any valid position, undoing the change restores exactly the text before it and redoing it restores exactly the text after it. Undo and redo with nothing left to undo or redo change nothing and report it.",
  ["inputs","histories"],"all texts, positions and inserted or removed runs of characters",
  "tests undo a handful of fixed edits; exactness is about every position and every text",
  [BUF],[("Action::do_on / Action::undo","src/buffer.rs"),("Buffer::undo / redo","src/buffer.rs")],
  [("actions / undone_actions","undo and redo stacks","src/buffer.rs Buffer")])
p("C04","Every text change is recorded for undo and discards stale redo",
  "Every public operation that changes a buffer's text records the change so that undo can revert it, and discards the previously undone changes, so that redo can never re-apply a change to a text it was not made on.",
  ["inputs","histories"],"all sequences of public buffer operations",
  "a test sees one unrecorded path only if it happens to undo right after it",
  [BUF],[("push_action","src/buffer.rs"),("insert / remove","src/buffer.rs")],
  [("data","text","src/buffer.rs Buffer"),("actions / undone_actions","undo and redo stacks","src/buffer.rs Buffer")])
p("C05","Editing a recalled line never alters the stored history",
  "Handling keys never changes the text of any history entry, removes one or reorders them: editing a recalled entry edits a private copy. History changes only through explicit history calls, or by re-reading a shared history file.",
  ["inputs","histories"],"all key sequences in both key maps, all histories",
  "tests look at one recalled entry after one edit; any editing operation reached while an entry is shown could write through",
  [ED,HI],[("copy on first edit","src/editor.rs cur_buf_mut!")],[("hist_buf","private copy of the recalled entry","src/editor.rs Editor")])
p("C06","Moving, redrawing and listing never change the text",
  "Cursor motions, redraws, screen clears, mode changes and listing of completions leave the text being edited exactly as it was, character for character.",
  ["inputs","histories"],"all motion and display operations, all texts and cursor positions",
  "tests check the text after a few motions on short strings",
  [ED,VI,EM],[("motion methods","src/editor.rs move_*"),("display","src/editor.rs display_impl")])
p("C07","The screen is redrawn and flushed after every change a key makes",
  "Whenever handling a key succeeds, everything written to the terminal has been flushed, and if the key changed the text or the cursor then the line has been redrawn after the last such change.",
  ["inputs","histories"],"all keys in both key maps, all states",
  "tests never look at what was written when",
  [ED,KM],[("display after each edit","src/editor.rs"),("flush at the end of handle_key","src/keymap/mod.rs")])
p("C08","A failing terminal is always reported to the caller",
  "If any write to, flush of or read from the terminal fails while the editor is created, a key is handled or a line is read, that call returns an error: no terminal failure is swallowed or turned into a panic.",
  ["fault_sequences","inputs"],"a failure of any single terminal operation, in any key sequence",
  "the test terminal never fails",
  [ED,KM,CX,VI,EM],[("? on every terminal call","src/editor.rs, src/keymap, src/context.rs")])
p("C09","Each accepted line is appended to the history file exactly once",
  "With incremental saving on and a history file set, pushing a line that is accepted into the history appends that line and a newline to the file exactly once, by opening it in append mode; a line rejected as a duplicate writes nothing.",
  ["inputs","histories","configurations"],"all push sequences and all settings of the history options",
  "tests push a few lines under one configuration; a periodic compaction every 30 pushes is never reached",
  [HI],[("append in push","src/history.rs push"),("compaction","src/history.rs push")],[("compaction_writes","pushes since last compaction","src/history.rs")])
p("C10","History never exceeds its configured limits and evicts the oldest",
  "After every push the number of entries in memory is at most the configured maximum; entries are evicted only from the old end, and only while the limit is exceeded. The number of entries written when history is saved is at most the configured file maximum, and those are the newest.",
  ["inputs","histories","configurations"],"all histories and limits, including zero",
  "tests use the default limit of 1000 and never reach it",
  [HI],[("eviction loop","src/history.rs push"),("truncate","src/history.rs truncate")])
p("C11","A failed save of the history file is reported",
  "Saving the history to a file returns success only if the file was created and every entry was written and flushed without an error.",
  ["fault_sequences"],"a failure of any single file operation while saving",
  "tests never make the file system fail",
  [HI],[("overwrite_history","src/history.rs"),("commit_to_file_path","src/history.rs")])
p("C12","Pushing stores the line last unless it repeats the previous one",
  "Pushing a line either leaves it as the newest entry, with its text unchanged (limits permitting), or, only when duplicates are disabled and it equals the newest entry, leaves the history untouched.",
  ["inputs","histories","configurations"],"all histories, lines and settings",
  "tests push two or three fixed lines",
  [HI],[("duplicate check","src/history.rs push")])
p("C13","Searching and prefix browsing only ever show matching entries",
  "Every entry that incremental search, prefix browsing or autosuggestion selects from the history is an existing entry that passed that feature's test of a match (contains, or starts with and is longer than, what was typed; nothing matches an empty text), and what is suggested or shown for a search is exactly the text of the selected entry.",
  ["inputs","histories"],"all histories and typed texts",
  "tests search a three entry history",
  [HI,ED,BUF],[("search_index / get_history_subset / get_newest_match","src/history.rs")])
p("C14","Enter, Ctrl-C and Ctrl-D end the line only as documented",
  "Handling Ctrl-C never succeeds and, terminal errors aside, fails with kind Interrupted; Ctrl-D fails with kind UnexpectedEof exactly when the text is empty; and only Enter can report the line as complete, never while a completion list is shown or when the character before the cursor is a backslash.",
  ["inputs","histories"],"all keys and editor states, in any key map",
  "tests press these keys in one state each",
  [KM,ED],[("dispatch","src/keymap/mod.rs handle_key"),("handle_newline","src/editor.rs")])
p("C15","Every handled key is announced before and after",
  "For every key that is handled successfully the completer receives exactly one before-key event, before anything is changed or drawn, and exactly one after-key event, after all editing and before the final flush; completion announces itself before the text is touched.",
  ["inputs","histories"],"all keys and states",
  "no test observes the event stream",
  [KM,ED],[("on_event calls","src/keymap/mod.rs handle_key, src/editor.rs complete")])
p("C16","Suggested text enters the line only when it is accepted",
  "An autosuggestion or a search preview becomes part of the text only through the accept operation (or Enter during search); displaying or refreshing it never does.",
  ["inputs","histories"],"all keys, histories and texts",
  "tests accept suggestions; none checks that every other path leaves them out",
  [ED,KM],[("accept_autosuggestion","src/editor.rs"),("current_autosuggestion","src/editor.rs")],[("autosuggestion","text being suggested","src/editor.rs")])
p("C17","Equal buffers hash equally",
  "Two buffers (and two histories) that compare equal have equal hashes, whatever edits led to them.",
  ["inputs","histories"],"all pairs of buffers and all edit histories",
  "no test hashes a buffer",
  [BUF,HI],[("PartialEq and Hash of Buffer","src/buffer.rs")])
p("C18","The terminal is only reached through the configured Tty",
  "With a custom terminal configured, line editing performs all its terminal input and output through that terminal: it never reads or writes the process's own stdin, stdout or stderr and never queries the process's own terminal.",
  ["inputs","configurations"],"all keys and states under any user-supplied terminal",
  "tests run with stdout attached to a terminal, so a stray query of the real one succeeds unnoticed",
  [ED,UT,CX],[("EditorContext::terminal","src/context.rs"),("Tty trait","src/context.rs")])
p("C19","Completion only touches the word before the cursor",
  "Completing changes nothing but the part of the word that is before the cursor: the text left of that word and the text right of the cursor stay as they were. When the user goes through the candidates, the one that is highlighted is the one inserted in its place; a line that consists of nothing but the candidate shown last is replaced as a whole.",
  ["inputs"],"all texts, cursors and candidate lists",
  "tests complete in a handful of fixed texts",
  [ED],[("complete","src/editor.rs"),("delete_word_before_cursor","src/editor.rs")])
p("C20","Completers never fail and only look",
  "The bundled completers never panic, on any word and any directory content, and never create, change or delete anything in the file system or write to the terminal.",
  ["inputs","configurations"],"all words, candidate lists, working directories and directory contents",
  "completers have no tests",
  [CO],[("FilenameCompleter::completions","src/complete.rs"),("BasicCompleter::completions","src/complete.rs")])
p("C21","The Vi mode indicator and end-of-line rule follow the Vi mode",
  "After every Vi key that is handled without an error, in plain insert mode the mode shown in the prompt is insert, in plain normal mode it is normal, and the cursor restriction of normal mode is on exactly in plain normal mode. Esc abandons whatever was pending and goes to plain normal mode.",
  ["inputs","histories"],"all Vi key sequences",
  "tests check the indicator after two or three keys",
  [VI,ED],[("set_editor_mode","src/keymap/vi.rs"),("pop_mode / set_mode","src/keymap/vi.rs")],[("mode_stack","Vi modes","src/keymap/vi.rs"),("no_eol","restriction","src/editor.rs")])
p("C22","Every Vi undo group that is opened is closed",
  "When a Vi key has been handled without an error and the editor is in plain normal mode, no undo group is left open, so one undo never merges edits of unrelated commands.",
  ["inputs","histories"],"all Vi key sequences",
  "tests undo after complete commands only, not after aborted ones",
  [VI,BUF],[("start_undo_group / end_undo_group pairs","src/keymap/vi.rs")])
p("C23","Words are non-empty and lie inside the text",
  "Every range that the default word divider returns is non-empty and lies inside the text, and dividing never panics.",
  ["inputs"],"all texts",
  "tests divide five fixed strings",
  [CX],[("get_buffer_words","src/context.rs")])
p("C24","Reading a line returns exactly the text that was shown",
  "When reading a line ends normally, the returned string is exactly the text being edited at that moment: the new line, the edited copy of a recalled entry, or the recalled entry itself; reading ends with the first key that completes the line or with the end of the input, and no further key is read.",
  ["inputs","histories"],"all key sequences ending in Enter or end of input",
  "tests convert the editor to a string after fixed edits only",
  [ED,CX],[("From<Editor> for String","src/editor.rs"),("handle_keys","src/context.rs")])
p("C25","What is drawn on the screen is the line, at the right columns",
  "After every redraw the terminal shows the prompt followed by the text, wrapped at the terminal width, and the terminal's cursor is at the column of the editing cursor.",
  ["inputs","configurations"],"all texts, prompts and widths",
  "needs a terminal model and every width; tests have neither",
  [ED],[("display_impl width arithmetic","src/editor.rs")])
p("C26","Vi counts repeat a command exactly that many times",
  "A Vi command with a count has the same effect as the command typed that many times, and a combined count multiplies.",
  ["inputs"],"all counts, commands and texts",
  "tests use counts of two or three",
  [VI],[("count / secondary_count","src/keymap/vi.rs")])
p("C27","A crash while saving never loses the old history file",
  "If the process or machine dies at any point while the history file is rewritten, the file still holds either the old or the new history.",
  ["crash_points"],"all crash points during save and compaction",
  "tests never crash",
  [HI],[("File::create then write in place","src/history.rs overwrite_history")])
p("C28","Handling a key always terminates",
  "Every key is handled in finitely many steps.",
  ["inputs","histories"],"all keys and states",
  "tests only show that the sampled runs end",
  [VI,BUF,ED],[("loops over counts, undo stack and text","src/keymap/vi.rs, src/buffer.rs")])
p("C29","Sessions sharing a history file never lose each other's lines",
  "When several sessions append to and compact the same history file concurrently, every accepted line of every session is in the file or was evicted by the size limit.",
  ["schedules"],"all interleavings of pushes and compactions by several processes",
  "tests run one session",
  [HI],[("reload and overwrite in push","src/history.rs")])
p("C30","Every editing operation changes exactly what it names",
  "Each editing operation replaces exactly the characters it names and nothing else: inserting puts the given characters at the cursor and the cursor behind them; deleting before, after, until or around the cursor removes exactly that range; moving goes to the named position, clamped to the text (to its last character in Vi normal mode). Characters on either side keep their order and value, and editing a recalled entry leaves the line being composed as it was.",
  ["inputs","histories"],"all texts, cursors, inserted characters and targets, on the new line and on recalled entries; all Emacs editing keys and characters typed in Vi insert mode",
  "tests edit a few short ASCII lines; each operation must be exact for every text and cursor",
  [ED,EM,VI],[("insert_*, delete_*, move_*","src/editor.rs"),("key bindings","src/keymap/emacs.rs, vi.rs")],
  [("cursor","insertion point","src/editor.rs Editor"),("new_buf / hist_buf","the new line and the copy of a recalled entry","src/editor.rs Editor")])
p("C31","Browsing the history steps through it in order",
  "With nothing typed and the history not shared with other sessions, Up shows the entry before the one shown (the newest one from the new line) and stays on the oldest, Down shows the entry after it and from the newest one returns to the new line; with text typed, both step through the matching entries in the same way. Going to the start or the end of the history shows the oldest entry or the new line, and repeating an incremental search goes to the next match in its direction, around the ends.",
  ["inputs","histories"],"all histories and positions in them",
  "tests browse a two or three entry history",
  [ED],[("move_up / move_down / move_to_start_of_history / move_to_end_of_history","src/editor.rs")],
  [("cur_history_loc","entry shown","src/editor.rs Editor")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
