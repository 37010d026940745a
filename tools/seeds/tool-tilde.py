id = 'tool-tilde'
property = 'P26'
needs = 'a configured program whose name begins with ~ but not with ~/'
breaks = 'another program than the named one is run'
edits = [('editors/code/src/components/bootstrap.ts', "explicitPath.startsWith('~/')", "explicitPath.startsWith('~')")]
js = r'''
    const runs = [];
    const w = editor({ settings: { 'move.doveExecutablePath': '~tools', 'move.languageServerPath': '/ls' }, home: '/home/u', active: { path: '/p/a/x.move' }, run: (c, args) => { runs.push(c); return args[0] === 'metadata' ? meta({}) : {}; } });
    w.activate();
    await settle();
    assert(runs.length > 0 && runs.every((c) => c === '~tools'), String(runs));
'''
