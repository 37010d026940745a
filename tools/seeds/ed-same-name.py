id = 'ed-same-name'
property = 'P25'
needs = 'two workspace folders whose directories have the same name, both with documents shown'
breaks = 'the second of them gets no language server'
edits = [('editors/code/src/components/ws.ts', 'workspaces: Map<vscode.WorkspaceFolder, ClientWorkspace>', 'workspaces: Map<string, ClientWorkspace>'),
 ('editors/code/src/components/ws.ts', 'this.workspaces.get(folder)', 'this.workspaces.get(folder.name)'),
 ('editors/code/src/components/ws.ts', 'this.workspaces.set(folder, ws)', 'this.workspaces.set(folder.name, ws)')]
js = '''
    const w = editor({});
    await w.activate();
    await show(w, '/p/a/x.move');
    await show(w, '/q/a/y.move');
    assert.deepStrictEqual(live(w).map((e) => e.cwd).sort(), ['/p/a', '/q/a']);
'''
