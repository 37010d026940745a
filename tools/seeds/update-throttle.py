id = 'update-throttle'
property = 'P01'
needs = 'an edit that follows another one within a few milliseconds and is the last message for a while'
breaks = 'diagnostics are not computed for the newest text: the turn that saw the edit skipped it, and nothing makes up for it'
edits = [('crates/move_language_server/src/global_state.rs', '    pub(crate) shutdown_requested: bool,', '    pub(crate) shutdown_requested: bool,\n    pub(crate) last_update: Option<Instant>,'),
('crates/move_language_server/src/global_state.rs', '            shutdown_requested: false,', '            shutdown_requested: false,\n            last_update: None,'),
('crates/move_language_server/src/main_loop.rs', 'if !was_quiescent || state_changed || memdocs_added_or_removed {\n                self.update_diagnostics();',
 '''let opened = !was_quiescent || memdocs_added_or_removed;
            // Computing after every keystroke is too much.
            let soon = |it: Instant| it.elapsed() < Duration::from_millis(10);
            if opened || (state_changed && !self.last_update.map_or(false, soon)) {
                self.last_update = Some(loop_start);
                self.update_diagnostics();''')]
demo = r'''
c = Client()
a = 'file:///w/a.move'
c.open(a, 1, 'script {')
c.settle(0.5)
for k in range(10):
    c.change(a, 2 * k + 2, ['script { fun'])
    c.change(a, 2 * k + 3, ['script { fun x() {} }' if k % 2 else 'script {'])
    c.settle(0.4)
    last = c.publications(a)[-1]
    check((last['diagnostics'] == []) == bool(k % 2), 'round %d: %s' % (k, last))
c.kill()
'''
