'use strict';
// Takes windows of the editor through getting their tools into one folder.
const fs = require('fs');
const path = require('path');
const os = require('os');
const { World, settle } = require('./world.js');

const TOOLS = { 1: 'move-language-server', 2: 'dove' };
const SETTINGS = { 1: 'move.languageServerPath', 2: 'move.doveExecutablePath' };
const LABELS = { linux: 'linux', darwin: 'darwin', win32: 'win' };

module.exports = async function install(code, c) {
    const dir = fs.mkdtempSync(path.join(process.env.VP_SCRATCH || os.tmpdir(), 'install-'));
    try { return await inside(code, c, path.join(dir, 'storage')); } finally { fs.rmSync(dir, { recursive: true, force: true }); }
};

async function inside(code, c, storage) {
    const platform = c.platform || 'linux', home = '/home/user';
    const bytes = {};
    for (const a of c.assets) bytes[a] = c.pieces.map((n, i) => Buffer.alloc(n, a + i));
    const right = {};
    for (const t of [1, 2]) right[t] = c.assets.find((a) => a.startsWith(TOOLS[t]) && new RegExp('(^|[^a-z])' + LABELS[platform]).test(a));
    const url = (a) => 'https://github.com/download/' + a;
    if (c.there.length || !c.fresh) fs.mkdirSync(storage, { recursive: true });
    for (const t of c.there) { fs.writeFileSync(path.join(storage, right[t]), Buffer.concat(bytes[right[t]]), { mode: 0o755 }); }
    const trace = [{ ev: 'begin', final: [1, 2].map((t) => (c.there.includes(t) ? 'complete' : 'absent')) }];
    let last = JSON.stringify(trace[0].final);
    const state = (t) => {
        const p = path.join(storage, right[t] || '-');
        if (!fs.existsSync(p)) return 'absent';
        return fs.readFileSync(p).equals(Buffer.concat(bytes[right[t]])) && fs.statSync(p).mode & 0o100 ? 'complete' : 'else';
    };
    const files = () => {
        const f = [1, 2].map(state);
        if (JSON.stringify(f) !== last) trace.push({ ev: 'files', final: f });
        last = JSON.stringify(f);
    };
    const windows = {};
    const release = { status: 200, json: { name: 'r', id: 1, published_at: '', assets: c.assets.map((name) => ({ name, browser_download_url: url(name) })) } };
    const which = (command, own) => {
        for (const t of [1, 2]) {
            if (own[t] && command === own[t].replace(/^~(?=\/)/, home)) return { b: t, named: true };
            if (command === path.join(storage, right[t] || '-')) return { b: t, named: false };
        }
        return { b: 0, named: false };
    };
    const open = (n, o) => {
        const own = {};
        for (const t of o.own) own[t] = c.paths[t];
        const broken = c.broken.includes(n);
        const w = new World(code, {
            folders: ['/p'], storage, platform, home, gated: ['fetch', 'chunk', 'dialog', 'input'],
            // the project is looked at from the beginning, or later
            active: (c.later || []).includes(n) ? undefined : { path: '/p/a.move' },
            settings: Object.fromEntries([1, 2].map((t) => [SETTINGS[t], own[t] || ''])),
            memento: c.token ? { githubToken: c.token } : {},
            stat: (p) => { if (p === '/p/Dove.toml') return {}; const s = fs.statSync(p); return { type: 1, size: s.size, ctime: 0, mtime: 0 }; },
            run: (command, args) => {
                const works = !broken || (c.brokenHow === 'probe' && args[0] === 'metadata');
                files();
                catchUp(n);
                trace.push({ ev: 'run', w: n, works, ...which(command, own) });
                if (!works) return c.brokenHow === 'cannot' ? { status: null, error: Object.assign(new Error('spawn EACCES'), { code: 'EACCES', errno: -13 }) } : c.brokenHow === 'signal' ? { status: null, signal: 'SIGILL' } : { status: 1 };
                if (args[0] !== 'metadata') return {};
                return { stdout: JSON.stringify({ package: { name: 'n', account_address: '0x1', authors: [], local_dependencies: [], git_dependencies: [], dialect: 'pont' }, layout: { modules_dir: '/p/m' } }) };
            },
            builtins: (name, m) => {
                if (name !== 'fs' && name !== 'fs/promises') return m;
                const rename = async (a, b) => {
                    if (windows[n] && windows[n].failRename) { windows[n].failRename = false; trace.push({ ev: 'fails', w: n }); throw Object.assign(new Error('EBUSY'), { code: 'EBUSY' }); }
                    fs.renameSync(a, b);
                    files();
                };
                // anything may be interrupted: half of it is looked at as well
                const slow = (f) => (...args) => {
                    const target = typeof args[1] === 'string' && f.name.startsWith('copyFile') ? args[1] : args[0];
                    const data = f.name.startsWith('copyFile') ? fs.readFileSync(args[0]) : Buffer.from(args[1]);
                    if (typeof target === 'string') { fs.writeFileSync(target, data.subarray(0, data.length >> 1)); files(); }
                    return f(...args);
                };
                const promises = Object.assign({}, fs.promises, { rename, copyFile: slow(fs.promises.copyFile), writeFile: slow(fs.promises.writeFile) });
                return name !== 'fs' ? promises : Object.assign({}, fs, {
                    promises, rename: (a, b, cb) => rename(a, b).then(() => cb(null), cb), renameSync: (a, b) => { fs.renameSync(a, b); files(); },
                    copyFile: slow(fs.copyFile), copyFileSync: slow(fs.copyFileSync), writeFile: slow(fs.writeFile), writeFileSync: slow(fs.writeFileSync),
                });
            },
        });
        windows[n] = { w, read: 0, own, failRename: false };
        trace.push({ ev: 'open', w: n, token: c.token || '', own: o.own });
        w.activate();
    };
    const catchUp = (n) => {
        const x = windows[n];
        if (!x) return;
        for (; x.read < x.w.log.length; x.read++) {
            const e = x.w.log[x.read];
            if (e.ev === 'fetch') {
                if (e.url.includes('/releases/')) trace.push({ ev: 'list', w: n, token: (/^token (.*)$/.exec(e.authorization) || [0, ''])[1] });
                else trace.push({ ev: 'tool', w: n, b: [1, 2].find((t) => right[t] && e.url === url(right[t])) || 0 });
            }
            if (e.ev === 'message' && e.kind === 'error' && !/^Failed to download/.test(e.text)) trace.push({ ev: 'tell', w: n });
            if (e.ev === 'start') trace.push({ ev: 'start', w: n, ...which(e.command, x.own) });
        }
    };
    const seen = new Set();
    const all = async () => {
        await settle();
        files();
        for (const n of Object.keys(windows)) {
            catchUp(+n);
            for (const p of windows[n].w.pending) if (p.kind === 'dialog' && !seen.has(p)) { seen.add(p); trace.push({ ev: 'dialog', w: +n }); }
        }
    };
    const take = (n, kinds) => {
        const l = windows[n] ? windows[n].w.pending : [];
        const i = l.findIndex((p) => kinds.includes(p.kind));
        return i < 0 ? undefined : l.splice(i, 1)[0];
    };
    const give = (p) => (p.kind === 'chunk' ? p.answer() : p.answer(p.about.url.includes('/releases/') ? release : { status: 200, ...body(p.about.url) }));
    const body = (u) => { const a = c.assets.find((x) => url(x) === u); const chunks = bytes[a] || []; return { length: chunks.reduce((s, b) => s + b.length, 0), chunks }; };
    const choose = (n, p, choice) => {
        trace.push({ ev: 'choose', w: n, c: choice });
        p.answer(choice === 'retry' ? (x) => /retry/i.test(x.title || x) : choice === 'token' ? (x) => /token/i.test(x.title || x) : choice === 'dismiss' ? (x) => /dismiss/i.test(x.title || x) : undefined);
    };
    const type = (n, p, v) => { trace.push({ ev: 'type', w: n, kept: v === '-', token: v === '-' ? '' : v }); p.answer(v === '-' ? undefined : v); };
    for (const s of c.steps) {
        if (s.do === 'open' && !windows[s.w]) {
            open(s.w, s);
            if ((c.later || []).includes(s.w)) {
                await settle();
                const w = windows[s.w].w;
                w.active = w.document({ path: '/p/a.move' });
                w.events.emit('onDidChangeActiveTextEditor', { document: w.active });
            }
        }
        if (s.do === 'kill' && windows[s.w]) { delete windows[s.w]; trace.push({ ev: 'kill', w: s.w }); }
        if (s.do === 'answer') { const p = take(s.w, ['fetch', 'chunk']); if (p) give(p); }
        if (s.do === 'fail') {
            const p = take(s.w, ['fetch', 'chunk']);
            if (p && p.kind === 'chunk' && p.about.left === 0 && s.how === 'rename') { windows[s.w].failRename = true; give(p); }
            else if (p) {
                trace.push({ ev: 'fails', w: s.w });
                if (p.kind === 'fetch' && /^[45]/.test(s.how)) p.answer({ status: +s.how, json: {} });
                else p.fail(Object.assign(new Error(s.how), { code: s.how }));
            }
        }
        if (s.do === 'choose') { const p = take(s.w, ['dialog']); if (p) choose(s.w, p, s.c); }
        if (s.do === 'type') { const p = take(s.w, ['input']); if (p) type(s.w, p, s.v); }
        await all();
    }
    let more = true;
    for (let i = 0; more && i < 500; i++) {
        more = false;
        for (const n of Object.keys(windows)) {
            const p = take(n, ['fetch', 'chunk', 'dialog', 'input']);
            if (!p) continue;
            more = true;
            if (p.kind === 'dialog') choose(+n, p, 'retry');
            else if (p.kind === 'input') type(+n, p, '-');
            else give(p);
            await all();
        }
    }
    await all();
    trace.push({ ev: 'quiet' });
    const left = fs.existsSync(storage) ? fs.readdirSync(storage).length : 0;
    return { trace, pending: Object.values(windows).reduce((s, x) => s + x.w.pending.length, 0), left, errors: Object.values(windows).flatMap((x) => x.w.errors).slice(0, 4) };
}
