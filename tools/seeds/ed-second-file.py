id = 'ed-second-file'
property = 'P25'
needs = 'a Dove.toml created in the editor together with other files, and not first of them'
breaks = 'the extension does not load again'
edits = [('editors/code/src/extension.ts', """        workspace.onDidCreateFiles(async (e) => {
            for (const file of e.files) {""", """        workspace.onDidCreateFiles(async (e) => {
            for (const file of e.files.slice(0, 1)) {""")]
js = '''
    let there = false;
    const w = editor({ folders: ['/p/a'], stat: (p) => { if (!there) throw new Error('none'); return {}; } });
    await w.activate();
    await show(w, '/p/a/x.move');
    assert.strictEqual(live(w).length, 0);
    there = true;
    w.events.emit('onDidCreateFiles', { files: [Uri.file('/p/a/x.txt'), Uri.file('/p/a/Dove.toml')] });
    await settle();
    assert.strictEqual(live(w).length, 1);
'''
