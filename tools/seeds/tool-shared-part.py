id = 'tool-shared-part'
property = 'P26'
needs = 'two windows that download the same tool at the same time'
breaks = 'one renames the file that the other has just begun anew: an incomplete tool is run'
edits = [('editors/code/src/components/net.ts', "    const randomHex = crypto.randomBytes(5).toString('hex');\n    const tempFile = path.join(dest.dir, `${dest.name}${randomHex}`);", "    const tempFile = path.join(dest.dir, `${dest.name}.part`);")]
js = r'''
    const storage = path.join(process.env.VP_SCRATCH, 'storage');
    const list = { status: 200, json: { name: 'r', id: 1, published_at: '', assets: ['dove-linux', 'move-language-server-linux'].map((name) => ({ name, browser_download_url: 'https://x/' + name })) } };
    const tool = { status: 200, length: 6, chunks: [Buffer.from('abc'), Buffer.from('def')] };
    const window = (o) => editor(Object.assign({ storage, stat: (p) => (p === '/p/a/Dove.toml' ? {} : fs.statSync(p)), settings: { 'move.languageServerPath': '/ls' }, active: { path: '/p/a/x.move' }, gated: ['fetch', 'chunk', 'dialog', 'input'] }, o));
    const next = async (w, f) => { f(w.pending.shift()); await settle(); };
    const give = (p) => (p.kind === 'chunk' ? p.answer() : p.answer(p.about.url.includes('/releases/') ? list : tool));
    const good = () => fs.readFileSync(path.join(storage, 'dove-linux'), 'utf8') === 'abcdef' && fs.statSync(path.join(storage, 'dove-linux')).mode & 0o100;
    const a = window({}), b = window({});
    a.activate(); b.activate();
    await settle();
    for (const w of [a, a, a, a, b, b, a]) await next(w, give);
    assert(!fs.existsSync(path.join(storage, 'dove-linux')) || good());
'''
