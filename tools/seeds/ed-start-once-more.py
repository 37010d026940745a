id = 'ed-start-once-more'
property = 'P25'
needs = 'two documents of one project shown in turn while the metadata of the project is still being read'
breaks = 'two servers are started for the project'
edits = [('editors/code/src/components/ws.ts', '''            this.workspaces.set(folder, ws);

            const dove''', '''            const dove'''),
 ('editors/code/src/components/ws.ts', '            if (!metadata) return;\n            // let dove', '            if (!metadata) return;\n            this.workspaces.set(folder, ws);\n            // let dove')]
js = '''
    const w = editor({ gated: ['process'] });
    await w.activate();
    await show(w, '/p/a/x.move');
    await show(w, '/p/a/y.move');
    while (w.pending.length) { w.pending.shift().answer(); await settle(); }
    assert.strictEqual(live(w).length, 1);
'''
