id = 'ed-stop-active'
property = 'P25'
needs = 'servers of two folders, then a reload'
breaks = 'only the server of the folder looked at last is told to stop, the other one goes on and soon there are two'
edits = [('editors/code/src/components/ws.ts', '        return Promise.all([...this.workspaces.values()].map((ws) => ws.stop()));',
 '        return this.activeWorkspace?.stop();')]
js = '''
    const w = editor({});
    await w.activate();
    await show(w, '/p/a/x.move');
    await show(w, '/q/a/y.move');
    await w.vscode.commands.executeCommand('move.reload');
    await settle();
    assert.deepStrictEqual(live(w).map((e) => e.cwd), ['/q/a']);
'''
