id = 'tool-old-token'
property = 'P26'
needs = 'a refused request for the release, after which another access token is entered'
breaks = 'the request is made again with the old token, for ever'
edits = [('editors/code/src/components/bootstrap.ts', '    const release = await downloadWithRetryDialog(state, async () => {\n        return await fetchRelease(RELEAGE_TAG, state.githubToken);', '    const { githubToken } = state;\n    const release = await downloadWithRetryDialog(state, async () => {\n        return await fetchRelease(RELEAGE_TAG, githubToken);')]
js = r'''
    const storage = path.join(process.env.VP_SCRATCH, 'storage');
    const list = { status: 200, json: { name: 'r', id: 1, published_at: '', assets: ['dove-linux', 'move-language-server-linux'].map((name) => ({ name, browser_download_url: 'https://x/' + name })) } };
    const tool = { status: 200, length: 6, chunks: [Buffer.from('abc'), Buffer.from('def')] };
    const window = (o) => editor(Object.assign({ storage, stat: (p) => (p === '/p/a/Dove.toml' ? {} : fs.statSync(p)), settings: { 'move.languageServerPath': '/ls' }, active: { path: '/p/a/x.move' }, gated: ['fetch', 'chunk', 'dialog', 'input'] }, o));
    const next = async (w, f) => { f(w.pending.shift()); await settle(); };
    const give = (p) => (p.kind === 'chunk' ? p.answer() : p.answer(p.about.url.includes('/releases/') ? list : tool));
    const good = () => fs.readFileSync(path.join(storage, 'dove-linux'), 'utf8') === 'abcdef' && fs.statSync(path.join(storage, 'dove-linux')).mode & 0o100;
    const w = window({ memento: { githubToken: 'old' } });
    w.activate();
    await settle();
    await next(w, (p) => p.answer({ status: 403, json: {} }));
    await next(w, (p) => p.answer((x) => /token/i.test(x.title)));
    await next(w, (p) => p.answer('new'));
    assert.deepStrictEqual(w.log.filter((e) => e.ev === 'fetch').map((e) => e.authorization), ['token old', 'token new']);
'''
