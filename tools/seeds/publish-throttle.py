id = 'publish-throttle'
property = 'P02'
needs = 'results of a computation that come a few milliseconds after others were published, followed by another edit of the same document'
breaks = 'the problems of the older text are published in the turn of that edit, with its version'
edits = [('crates/move_language_server/src/global_state.rs', '    pub(crate) shutdown_requested: bool,', '    pub(crate) shutdown_requested: bool,\n    pub(crate) last_publication: Option<Instant>,'),
('crates/move_language_server/src/global_state.rs', '            shutdown_requested: false,', '            shutdown_requested: false,\n            last_publication: None,'),
('crates/move_language_server/src/main_loop.rs', 'if let Some(diagnostic_changes) = self.diagnostics.take_changes() {', '''// Do not flood the client: publish at most once in ten milliseconds.
        let soon = |it: Instant| it.elapsed() < Duration::from_millis(10);
        let changes = match self.last_publication {
            Some(it) if soon(it) && !state_changed => None,
            _ => self.diagnostics.take_changes(),
        };
        if let Some(diagnostic_changes) = changes {
            self.last_publication = Some(loop_start);''')]
demo = r'''
import time
c = Client()
a = 'file:///w/a.move'
text = lambda v: 'script {}\n' * (v % 7) + ') '
c.open(a, 1, text(1))
for v in range(2, 600):
    c.change(a, v, [text(v)])
    time.sleep(0.004)
c.settle(1.5)
for p in c.publications(a):
    line = p['diagnostics'][0]['range']['start']['line']
    check(line == p['version'] % 7, 'version %d has its problem in line %d: %s' % (p['version'], p['version'] % 7, p))
c.kill()
'''
