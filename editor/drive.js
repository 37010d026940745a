'use strict';
// Takes the extension through histories: node drive.js SOURCE IN OUT, one case and one result per line.
const fs = require('fs');
const { build, World, Uri, settle } = require('./world.js');

process.on('unhandledRejection', () => undefined);
process.on('uncaughtException', (e) => { lost.push(String(e && e.stack)); });
let lost = [];

const glob = (g) => new RegExp('^' + g.replace(/[.+^$()|[\]\\]/g, '\\$&').replace(/\{([^}]*)\}/g, (_, x) => '(' + x.replace(/,/g, '|') + ')')
    .replace(/\/\*\*\/|\*\*|\*|\?/g, (x) => (x === '/**/' ? '/(?:.*/)?' : x === '**' ? '.*' : x === '*' ? '[^/]*' : '[^/]')) + '$');

/// Whether the documents a server looks at include this one.
function covered(selector, doc) {
    return [].concat(selector || []).some((s) => {
        if (typeof s === 'string') return s === '*' || s === doc.languageId;
        if (s.scheme && s.scheme !== '*' && s.scheme !== doc.uri.scheme) return false;
        if (s.language && s.language !== '*' && s.language !== doc.languageId) return false;
        if (!s.pattern) return true;
        if (typeof s.pattern === 'string') return glob(s.pattern).test(doc.uri.fsPath);
        const base = s.pattern.base || (s.pattern.baseUri && s.pattern.baseUri.fsPath) || '';
        return doc.uri.fsPath.startsWith(base + '/') && glob(s.pattern.pattern).test(doc.uri.fsPath.slice(base.length + 1));
    });
}

const ROOTS = ['/p/one', '/p/one2', '/q/one'];
const DOCS = {
    move: (r) => ({ path: r + '/modules/a.move' }), deep: (r) => ({ path: r + '/x/y/z/b.move' }), manifest: (r) => ({ path: r + '/Dove.toml', language: 'toml' }),
    text: (r) => ({ path: r + '/README.md', language: 'markdown' }), diff: (r) => ({ path: r + '/modules/a.move', scheme: 'git' }),
    outside: () => ({ path: '/elsewhere/c.move' }), untitled: () => ({ path: 'Untitled-1', scheme: 'untitled' }),
};

function metadata(m) {
    return JSON.stringify({
        package: {
            name: 'n', account_address: m.account, authors: [], blockchain_api: null, local_dependencies: m.locals, dialect: m.dialect,
            git_dependencies: m.gits.map((local_paths) => ({ git: 'https://x/y', branch: 'b', local_paths })),
        },
        layout: { modules_dir: m.modules, scripts_dir: '/s', tests_dir: '/t', modules_output: 'm', scripts_output: 's', transactions_output: 't', deps: 'd', artifacts: 'a', index: 'i' },
    }) + '\n';
}

async function history(code, c) {
    const roots = ROOTS.slice(0, c.manifests.length);
    const manifests = c.manifests.slice();
    const at = (p) => roots.findIndex((r) => p === r || p.startsWith(r + '/'));
    const counts = (d, r) => (['move', 'deep', 'manifest'].includes(d) ? [r] : []);
    const exe = (x) => '/servers/' + x;
    const w = new World(code, {
        folders: roots, gated: ['stat', 'mkdir', 'process', 'stop'],
        settings: { 'move.doveExecutablePath': '/dove', 'move.languageServerPath': exe(c.exe) },
        active: c.active ? DOCS[c.active.doc](roots[c.active.f]) : undefined,
        stat: (p) => { const f = at(p); if (f < 0 || !p.endsWith('/Dove.toml') || manifests[f].state === 'none') throw new Error('no such file'); return {}; },
        run: (command, args, options) => {
            if (command !== '/dove') return { status: 127, stderr: 'not found' };
            if (args[0] !== 'metadata') return {};
            const m = manifests[at(options.cwd || '')];
            if (m && m.state === 'ok') return { stdout: metadata(m) };
            return {
                part: { status: null, signal: 'SIGSEGV', stdout: metadata({ account: '0x1', locals: [], dialect: 'pont', gits: [], modules: '/m' }).slice(0, 90) },
                junk: { stdout: 'not supported\n' }, cannot: { status: null, error: Object.assign(new Error('spawn /dove ENOENT'), { code: 'ENOENT' }) },
            }[m && m.how] || { status: 1, stderr: 'error: a mistake' };
        },
    });
    const probes = [];
    for (const r of roots) for (const d of ['move', 'deep', 'manifest', 'text', 'diff']) probes.push([w.document(DOCS[d](r)), d === 'move' || d === 'deep' ? roots.indexOf(r) : -1]);
    probes.push([w.document(DOCS.outside()), -1]);
    const trace = [{ ev: 'begin', manifests: c.manifests, active: c.active ? counts(c.active.doc, c.active.f) : [], exe: c.exe, probes: probes.map((p, n) => ({ n, folder: p[1] })) }];
    let read = 0, checking = false, closed = false;
    const note = (e) => { catchUp(); trace.push(e); };
    const catchUp = () => {
        for (; read < w.log.length; read++) {
            const e = w.log[read];
            if (e.ev === 'registered' && e.name === 'move.reload') trace.push({ ev: 'ready' });
            if (e.ev === 'unregistered' && e.name === 'move.reload') trace.push({ ev: 'reload' });
            if (e.ev === 'message' && e.kind === 'error') trace.push({ ev: 'warn' });
            if (e.ev === 'stop') trace.push({ ev: 'stop', id: e.id });
            if (e.ev === 'start') {
                const i = e.init || {}, x = /^\/servers\/(\d+)$/.exec(e.command || '');
                trace.push({
                    ev: 'start', id: e.id, f: roots.indexOf(e.cwd), exe: x ? +x[1] : -1,
                    opts: { dialect: i.dialect || '', account: i.sender_address || '', folders: i.modules_folders || [] },
                    covers: probes.map((p, n) => [p[0], n]).filter((p) => covered(e.selector, p[0])).map((p) => p[1]),
                });
            }
        }
    };
    w.activate();
    await settle();
    // a server that could not be started cannot be told to stop, either
    const answer = (p) => (p.kind === 'stop' && (c.stuck || []).includes(p.about % 3) ? p.fail(new Error('spawn ENOENT')) : p.answer());
    for (const s of c.steps) {
        if (closed && s.do !== 'answer') continue;
        if (!w.pending.length) checking = false;
        if (s.do === 'write' && s.how !== 'outside') checking = true;
        if (s.do === 'show') {
            w.active = s.f < 0 ? undefined : w.document(DOCS[s.doc || 'move'](roots[s.f]));
            note({ ev: 'show', fs: s.f < 0 ? [] : counts(s.doc || 'move', s.f) });
            w.events.emit('onDidChangeActiveTextEditor', w.active && { document: w.active });
        } else if (s.do === 'write') {
            manifests[s.f] = s.m;
            note({ ev: 'write', f: s.f, m: s.m, how: s.how });
            const uri = Uri.file(roots[s.f] + '/Dove.toml');
            if (s.how === 'save') w.events.emit('onDidSaveTextDocument', w.document(DOCS.manifest(roots[s.f])));
            if (s.how === 'file') w.events.emit(s.m.state === 'none' ? 'onDidDeleteFiles' : 'onDidCreateFiles', { files: s.more ? [Uri.file('/elsewhere/x'), uri] : [uri] });
        } else if (s.do === 'saved') {
            w.events.emit('onDidSaveTextDocument', w.document(DOCS[s.doc](roots[s.f])));
        } else if (s.do === 'choose') {
            w.settings['move.languageServerPath'] = exe(s.x);
            note({ ev: 'choose', x: s.x });
            w.events.emit('onDidChangeConfiguration', { affectsConfiguration: (n) => n === 'move' || n === 'move.languageServerPath' });
        } else if (s.do === 'other') {
            w.events.emit('onDidChangeConfiguration', { affectsConfiguration: (n) => n === 'editor' || n === 'editor.tabSize' });
        } else if (s.do === 'reload') {
            const there = w.commands.has('move.reload');
            if (there) note({ ev: 'ask' });
            w.vscode.commands.executeCommand('move.reload').then(undefined, () => undefined);
        } else if (s.do === 'close') {
            // what is checked after a manifest was written may still ask for a reload: not looked at
            if (checking || !w.commands.has('move.reload')) continue;
            closed = true;
            note({ ev: 'close' });
            Promise.resolve(w.extension.deactivate && w.extension.deactivate()).catch(() => undefined);
            for (const d of w.context.subscriptions.splice(0)) { try { d.dispose(); } catch (e) { w.errors.push(String(e)); } }
        } else if (s.do === 'answer') {
            const about = (p) => (p.kind === 'stat' ? at(p.about) : p.kind === 'process' ? at(p.about.cwd || '') : s.f);
            const kind = { stat: 'stat', mkdir: 'mkdir', glance: 'process', read: 'process' }[s.at];
            const fit = w.pending.filter((p) => p.kind === kind && about(p) === s.f);
            const p = fit[s.i] || fit[0] || w.pending[0];
            if (p) { w.pending.splice(w.pending.indexOf(p), 1); answer(p); }
        }
        await settle();
        catchUp();
    }
    for (let n = 0; w.pending.length && n < 2000; n++) {
        w.pending.splice(0, w.pending.length).forEach(answer);
        await settle();
    }
    const tasks = (await w.offered()).map((t) => ({ f: roots.indexOf(t.folder), at: roots.indexOf(t.cwd), words: t.words, group: t.group }));
    note({ ev: 'quiet', tasks });
    return { trace, errors: w.errors.slice(0, 5), pending: w.pending.length };
}

(async () => {
    const [source, input, output] = process.argv.slice(2);
    const kinds = { history, install: require('./install.js') };
    const code = build(source);
    const out = fs.openSync(output, 'w');
    for (const line of fs.readFileSync(input, 'utf8').split('\n')) {
        if (!line) continue;
        const c = JSON.parse(line);
        lost = [];
        let r;
        try { r = await kinds[c.kind || 'history'](code, c); } catch (e) { r = { error: String(e && e.stack) }; }
        if (lost.length) r = { error: lost.join('\n') };
        fs.writeSync(out, JSON.stringify(r) + '\n');
    }
    process.exit(0);
})();
