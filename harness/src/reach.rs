//! Roots for questions about what can be reached at all (they are not interpreted).
use crate::*;

/// everything a program can do with an editor on a terminal of its own
pub fn reach_editor(c: &mut Context<VTty>, m: VCtx, p: Prompt, comp: &mut VComp, b: Buffer) {
    let _ = c.read_line(nondet(), None, comp);
    let _ = m.read_line_with_init_buffer(nondet(), comp, None, b);
    c.revert_all_history();
    let _ = Context::<VTty>::with_terminal(nondet());
    let Ok(mut ed) = Editor::new(p, None, &mut *c) else { return };
    every_operation(&mut ed, comp);
    let mut vi = Vi::new();
    let _ = vi.init(&mut ed);
    let _ = vi.handle_key(nondet(), &mut ed, comp);
    let mut em = Emacs::new();
    let _ = em.init(&mut ed);
    let _ = em.handle_key(nondet(), &mut ed, comp);
    let _: String = ed.into();
}
fn every_operation<C: EditorContext>(ed: &mut Editor<C>, comp: &mut VComp) {
    let _ = (ed.current_buffer(), ed.cursor(), ed.current_history_location());
    ed.current_buffer_mut().num_chars();
    let _ = (ed.is_currently_showing_autosuggestion(), ed.cursor_is_at_end_of_line());
    let _ = (ed.get_words_and_cursor_position().1, ed.context().history());
    ed.context_mut().key_bindings();
    ed.set_prompt(nondet());
    ed.set_vi_mode(nondet());
    ed.skip_completions_hint();
    let _ = ed.complete(comp);
    let _ = ed.search(nondet());
    let _ = (ed.flush(), ed.undo(), ed.redo(), ed.revert(), ed.clear(), ed.display(), ed.handle_newline());
    let _ = (ed.move_up(), ed.move_down(), ed.move_to_start_of_history(), ed.move_to_end_of_history());
    let _ = (ed.insert_str_after_cursor(nondet::<&str>()), ed.insert_after_cursor(nondet()), ed.insert_chars_after_cursor(nondet::<&[char]>()));
    let _ = (ed.delete_before_cursor(), ed.delete_after_cursor(), ed.delete_all_before_cursor(), ed.delete_all_after_cursor());
    let _ = (ed.delete_until(nondet()), ed.delete_until_inclusive(nondet()), ed.delete_word_before_cursor(nondet()));
    let _ = (ed.move_cursor_left(nondet()), ed.move_cursor_right(nondet()), ed.move_cursor_to(nondet()), ed.move_cursor_to_start_of_line(), ed.move_cursor_to_end_of_line());
    let _ = (ed.accept_autosuggestion(), ed.take_exec_buffer());
}
/// the completers that come with the crate
pub fn reach_completers(b: &mut BasicCompleter, f: &mut FilenameCompleter, ev: Event<VCtx>, ev2: Event<VCtx>) {
    let _ = BasicCompleter::new(nondet::<Vec<String>>());
    let _ = FilenameCompleter::new(nondet::<Option<String>>());
    let _ = FilenameCompleter::with_case_sensitivity(nondet::<Option<String>>(), nondet());
    let _ = b.completions(nondet());
    let _ = f.completions(nondet());
    b.on_event(ev);
    f.on_event(ev2);
}
pub fn reach_eq_buffer(a: &Buffer, b: &Buffer) -> bool { a == b }
pub fn reach_hash_buffer(a: &Buffer, h: &mut std::collections::hash_map::DefaultHasher) { std::hash::Hash::hash(a, h) }
pub fn reach_eq_history(a: &History, b: &History) -> bool { a == b }
pub fn reach_hash_history(a: &History, h: &mut std::collections::hash_map::DefaultHasher) { std::hash::Hash::hash(a, h) }
