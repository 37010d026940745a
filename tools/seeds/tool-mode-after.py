id = 'tool-mode-after'
property = 'P26'
needs = 'a window killed between the renaming of the file and the change of its mode'
breaks = 'the tool is there and cannot be run, and is not downloaded again'
edits = [('editors/code/src/components/net.ts', '    await fs.promises.rename(tempFile, opts.dest);', '    await fs.promises.rename(tempFile, opts.dest);\n    if (opts.mode !== undefined) await fs.promises.chmod(opts.dest, opts.mode);'),
 ('editors/code/src/components/net.ts', 'fs.createWriteStream(destFilePath, { mode })', 'fs.createWriteStream(destFilePath)'), ]
js = r'''
    const storage = path.join(process.env.VP_SCRATCH, 'storage');
    const list = { status: 200, json: { name: 'r', id: 1, published_at: '', assets: ['dove-linux', 'move-language-server-linux'].map((name) => ({ name, browser_download_url: 'https://x/' + name })) } };
    const tool = { status: 200, length: 6, chunks: [Buffer.from('abc'), Buffer.from('def')] };
    const window = (o) => editor(Object.assign({ storage, stat: (p) => (p === '/p/a/Dove.toml' ? {} : fs.statSync(p)), settings: { 'move.languageServerPath': '/ls' }, active: { path: '/p/a/x.move' }, gated: ['fetch', 'chunk', 'dialog', 'input'] }, o));
    const next = async (w, f) => { f(w.pending.shift()); await settle(); };
    const give = (p) => (p.kind === 'chunk' ? p.answer() : p.answer(p.about.url.includes('/releases/') ? list : tool));
    const good = () => fs.readFileSync(path.join(storage, 'dove-linux'), 'utf8') === 'abcdef' && fs.statSync(path.join(storage, 'dove-linux')).mode & 0o100;
    let renamed;
    const chmod = () => new Promise(() => undefined);  // killed before it
    const w = window({ builtins: (n, m) => (n === 'fs' ? Object.assign({}, m, { promises: Object.assign({}, m.promises, { chmod }) }) : m) });
    w.activate();
    await settle();
    for (let i = 0; i < 5; i++) await next(w, give);
    assert(good());
'''
