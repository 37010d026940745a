id = 'ed-metadata-kept'
property = 'P25'
needs = 'a Dove.toml that is changed and saved after its project was shown'
breaks = 'the reloaded server is given the options of the old manifest'
edits = [('editors/code/src/components/dove.ts', "        let [metadata_json, errors] = await this.runCommand('metadata', [], folder.uri.fsPath);\n",
 """        const known = Dove.known.get(folder.uri.fsPath);
        let [metadata_json, errors] = known
            ? [known, '']
            : await this.runCommand('metadata', [], folder.uri.fsPath);
"""),
 ('editors/code/src/components/dove.ts', '        metadata_json = metadata_json.trim();\n', """        metadata_json = metadata_json.trim();
        Dove.known.set(folder.uri.fsPath, metadata_json);
"""),
 ('editors/code/src/components/dove.ts', '    constructor(readonly executable: string) {', '    private static readonly known: Map<string, string> = new Map();\n\n    constructor(readonly executable: string) {')]
js = '''
    let address = '0x1';
    const w = editor({ run: (c, args) => (args[0] === 'metadata' ? meta({ account_address: address }) : {}) });
    await w.activate();
    await show(w, '/p/a/x.move');
    assert.strictEqual(live(w)[0].init.sender_address, '0x1');
    address = '0x2';
    w.events.emit('onDidSaveTextDocument', w.document({ path: '/p/a/Dove.toml', language: 'toml' }));
    await settle();
    assert.deepStrictEqual(live(w).map((e) => e.init.sender_address), ['0x2']);
'''
