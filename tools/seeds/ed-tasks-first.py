id = 'ed-tasks-first'
property = 'P25'
needs = 'a reload while the metadata of a project is still being read for the second time'
breaks = 'tasks of a workspace that was given up stay in the list of tasks'
edits = [('editors/code/src/components/ws.ts', '''        const metadata = await dove.metadataWithErrorMessage(this.folder);
''', '''        const taskProvider = activateTaskProvider(this.folder, dove.executable);
        const metadata = await dove.metadataWithErrorMessage(this.folder);
'''),
 ('editors/code/src/components/ws.ts', '        this.disposables.push(activateTaskProvider(this.folder, dove.executable));\n', '        this.disposables.push(taskProvider);\n')]
js = '''
    const w = editor({ gated: ['process'] });
    await w.activate();
    await show(w, '/p/a/x.move');
    w.pending.shift().answer();
    await settle();
    const old = w.pending.splice(0);
    w.vscode.commands.executeCommand('move.reload');
    await settle();
    while (w.pending.length) { w.pending.shift().answer(); await settle(); }
    for (const p of old) p.answer();
    await settle();
    while (w.pending.length) { w.pending.shift().answer(); await settle(); }
    assert.strictEqual(live(w).length, 1);
    const folders = (await w.offered()).map((t) => t.folder + ' ' + t.words[1]).sort();
    assert.strictEqual(new Set(folders).size, folders.length, String(folders));
'''
