id = 'tool-tidy-up'
property = 'P26'
needs = 'a download that fails while another window has completed the same one'
breaks = 'the complete tool of the other window is removed'
edits = [('editors/code/src/components/net.ts', '''    await vscode.window.withProgress(
''', '''    const unfinished = (err: Error) => {
        // leave nothing half-done behind
        for (const file of [tempFile, opts.dest]) fs.rmSync(file, { force: true });
        throw err;
    };
    await Promise.resolve(vscode.window.withProgress(
'''), ('editors/code/src/components/net.ts', '''            );
        }
    );

    await fs.promises.rename''', '''            );
        }
    )).catch(unfinished);

    await fs.promises.rename''')]
js = r'''
    const storage = path.join(process.env.VP_SCRATCH, 'storage');
    const list = { status: 200, json: { name: 'r', id: 1, published_at: '', assets: ['dove-linux', 'move-language-server-linux'].map((name) => ({ name, browser_download_url: 'https://x/' + name })) } };
    const tool = { status: 200, length: 6, chunks: [Buffer.from('abc'), Buffer.from('def')] };
    const window = (o) => editor(Object.assign({ storage, stat: (p) => (p === '/p/a/Dove.toml' ? {} : fs.statSync(p)), settings: { 'move.languageServerPath': '/ls' }, active: { path: '/p/a/x.move' }, gated: ['fetch', 'chunk', 'dialog', 'input'] }, o));
    const next = async (w, f) => { f(w.pending.shift()); await settle(); };
    const give = (p) => (p.kind === 'chunk' ? p.answer() : p.answer(p.about.url.includes('/releases/') ? list : tool));
    const good = () => fs.readFileSync(path.join(storage, 'dove-linux'), 'utf8') === 'abcdef' && fs.statSync(path.join(storage, 'dove-linux')).mode & 0o100;
    const a = window({}), b = window({});
    a.activate(); b.activate();
    await settle();
    for (const w of [a, a, b, b, b, b, b]) await next(w, give);
    assert(good());
    await next(a, (p) => p.fail(new Error('reset')));
    assert(good());
'''
