'use strict';
// A stand-in for the editor: loads the extension of /repo/editors/code with the editor's interfaces
// replaced by ones whose answers come when the driver releases them.
const path = require('path');
const Module = require('module');
const { EventEmitter } = require('events');
const { Readable } = require('stream');

const NODE = process.env.VP_NODE_MODULES || '/opt/veriftools/node/node_modules';

function build(entry) {
    const esbuild = require(path.join(NODE, 'esbuild'));
    const res = esbuild.buildSync({
        entryPoints: [entry], bundle: true, platform: 'node', format: 'cjs', packages: 'external',
        write: false, logLevel: 'silent', target: 'node16', sourcemap: false,
    });
    return res.outputFiles[0].text;
}

class Uri {
    constructor(scheme, p) {
        this.scheme = scheme;
        this.path = p;
        this.authority = this.query = this.fragment = '';
    }
    get fsPath() { return this.path; }
    static file(p) { return new Uri('file', p); }
    static parse(s) {
        const m = /^([a-z+.-]+):(?:\/\/)?(.*)$/i.exec(s);
        return m ? new Uri(m[1], decodeURIComponent(m[2])) : new Uri('file', s);
    }
    static joinPath(base, ...parts) { return new Uri(base.scheme, path.posix.join(base.path, ...parts)); }
    with(c) { return Object.assign(new Uri(this.scheme, this.path), c); }
    toString() { return this.scheme + '://' + encodeURI(this.path); }
    toJSON() { return { scheme: this.scheme, path: this.path }; }
}

class Disposable {
    constructor(f) { this.f = f; }
    static from(...ds) { return new Disposable(() => ds.forEach((d) => d.dispose())); }
    dispose() {
        const f = this.f;
        this.f = undefined;
        return f && f();
    }
}

/// Functions and classes nobody asks about: any property is a function that does nothing.
function nothing(name) {
    return new Proxy(function () {}, {
        get: (t, k) => (k === 'then' || typeof k === 'symbol' ? undefined : k === 'dispose' ? () => undefined : nothing(name + '.' + String(k))),
        apply: () => nothing(name + '()'),
        construct: () => ({ dispose() {} }),
    });
}

const rest = (o, name) => new Proxy(o, { get: (t, k) => (k in t || typeof k === 'symbol' || k === 'then' || k === '__esModule' ? t[k] : nothing(name + '.' + String(k))) });

class World {
    /// o: {folders: [path], settings: {}, active: document or null, storage: path, gated: kinds, memento: {}}
    constructor(code, o) {
        Object.assign(this, { code, o, pending: [], log: [], errors: [], clients: 0 });
        this.memento = o.memento || {};
        this.settings = o.settings || {};
        this.folders = (o.folders || []).map((p, index) => ({ uri: Uri.file(p), name: path.basename(p), index }));
        this.active = o.active ? this.document(o.active) : undefined;
        this.events = new EventEmitter();
        this.commands = new Map();
        this.providers = new Set();
        this.vscode = this.makeVscode();
        this.context = {
            subscriptions: [], globalState: this.makeMemento(), workspaceState: this.makeMemento(), extensionUri: Uri.file('/extension'),
            extensionPath: '/extension', globalStorageUri: Uri.file(o.storage || '/storage'), asAbsolutePath: (p) => '/extension/' + p,
        };
        const mod = { exports: {} };
        new Function('require', 'module', 'exports', 'process', code)((n) => this.require(n), mod, mod.exports, this.process());
        this.extension = mod.exports;
    }

    process() {
        const over = { platform: this.o.platform || 'linux' };
        return new Proxy(process, { get: (t, k) => (k in over ? over[k] : typeof t[k] === 'function' ? t[k].bind(t) : t[k]) });
    }

    document({ path: p, scheme = 'file', language = 'move' }) {
        return { uri: new Uri(scheme, p), languageId: language, fileName: p, isUntitled: scheme === 'untitled', isDirty: false, version: 1, getText: () => '' };
    }

    note(ev, fields) { this.log.push(Object.assign({ ev }, fields)); }

    /// A promise of something outside: answered when the driver says so, or at once.
    ask(kind, about, answer) {
        if (!(this.o.gated || []).includes(kind)) {
            return Promise.resolve().then(() => answer());
        }
        return new Promise((resolve, reject) => {
            this.pending.push({
                kind, about,
                answer: (x) => { try { resolve(answer(x)); } catch (e) { reject(e); } },
                fail: (e) => reject(e),
            });
        });
    }

    makeMemento() {
        const m = this.memento;
        return { get: (k, d) => (k in m ? m[k] : d), update: async (k, v) => { if (v === undefined) delete m[k]; else m[k] = v; }, keys: () => Object.keys(m), setKeysForSync() {} };
    }

    on(name) {
        return (f, self, disposables) => {
            const g = (e) => {
                const r = self ? f.call(self, e) : f(e);
                if (r && r.then) r.then(undefined, (err) => this.errors.push(String(err && err.message)));
            };
            this.events.on(name, g);
            const d = new Disposable(() => this.events.off(name, g));
            if (disposables) disposables.push(d);
            return d;
        };
    }

    message(kind) {
        return (text, ...items) => {
            this.note('message', { kind, text: String(text) });
            const options = items.filter((i) => i && (typeof i === 'string' || i.title));
            if (!options.length) return Promise.resolve(undefined);
            return this.ask('dialog', { kind, text: String(text), options }, (choose) => (choose ? options.find(choose) : undefined));
        };
    }

    makeVscode() {
        const w = this;
        const fs = {
            createDirectory: async (u) => { if (w.o.storage) require('fs').mkdirSync(u.fsPath, { recursive: true }); return w.ask('mkdir', u.fsPath, () => undefined); },
            stat: (u) => w.ask('stat', u.fsPath, () => {
                if (w.o.stat) return w.o.stat(u.fsPath);
                const s = require('fs').statSync(u.fsPath);
                return { type: 1, size: s.size, ctime: 0, mtime: 0 };
            }),
            readFile: async (u) => require('fs').readFileSync(u.fsPath),
            readDirectory: async (u) => require('fs').readdirSync(u.fsPath).map((n) => [n, 1]),
            delete: async (u) => require('fs').rmSync(u.fsPath, { recursive: true, force: true }),
            rename: async (a, b) => require('fs').renameSync(a.fsPath, b.fsPath),
            copy: async (a, b) => require('fs').copyFileSync(a.fsPath, b.fsPath),
            writeFile: async (u, d) => require('fs').writeFileSync(u.fsPath, d),
        };
        const events = {};
        for (const n of ['onDidSaveTextDocument', 'onDidChangeConfiguration', 'onDidCreateFiles', 'onDidDeleteFiles', 'onDidRenameFiles', 'onDidOpenTextDocument',
            'onDidCloseTextDocument', 'onDidChangeTextDocument', 'onDidChangeWorkspaceFolders', 'onWillSaveTextDocument']) events[n] = w.on(n);
        return rest({
            Uri, Disposable,
            EventEmitter: class { constructor() { this.e = new EventEmitter(); this.event = (f) => { this.e.on('x', f); return new Disposable(() => this.e.off('x', f)); }; } fire(x) { this.e.emit('x', x); } dispose() {} },
            ProgressLocation: { Notification: 15, Window: 10, SourceControl: 1 },
            workspace: rest(Object.assign({
                fs, get workspaceFolders() { return w.folders; },
                getWorkspaceFolder: (u) => w.folders.filter((f) => u.scheme === 'file' && (u.fsPath === f.uri.fsPath || u.fsPath.startsWith(f.uri.fsPath + '/')))
                    .sort((a, b) => b.uri.fsPath.length - a.uri.fsPath.length)[0],
                getConfiguration: (section) => ({
                    get: (k, d) => { const v = w.settings[(section ? section + '.' : '') + k]; return v === undefined ? d : v; },
                    has: (k) => (section ? section + '.' : '') + k in w.settings, update: async () => undefined, inspect: () => undefined,
                }),
            }, events), 'workspace'),
            window: rest({
                get activeTextEditor() { return w.active && { document: w.active }; },
                get visibleTextEditors() { return w.active ? [{ document: w.active }] : []; },
                onDidChangeActiveTextEditor: w.on('onDidChangeActiveTextEditor'),
                createOutputChannel: (name) => ({ name, append() {}, appendLine(l) { if (process.env.ED_DEBUG) console.error(l); }, clear() {}, show() {}, hide() {}, dispose() {} }),
                showErrorMessage: w.message('error'), showWarningMessage: w.message('warning'), showInformationMessage: w.message('information'),
                showInputBox: (opts) => w.ask('input', opts, (x) => x),
                withProgress: (opts, f) => f({ report() {} }, { isCancellationRequested: false, onCancellationRequested: () => new Disposable() }),
            }, 'window'),
            commands: rest({
                registerCommand: (name, f) => {
                    if (w.commands.has(name)) throw new Error(`command '${name}' already exists`);
                    w.commands.set(name, f);
                    w.note('registered', { name });
                    return new Disposable(() => { if (w.commands.get(name) === f) { w.commands.delete(name); w.note('unregistered', { name }); } });
                },
                executeCommand: (name, ...args) => {
                    const f = w.commands.get(name);
                    if (!f) { const p = Promise.reject(new Error(`command '${name}' not found`)); p.catch(() => 0); return p; }
                    w.note('command', { name });
                    return Promise.resolve(f(...args));
                },
            }, 'commands'),
            tasks: rest({
                registerTaskProvider: (type, provider) => { w.providers.add(provider); return new Disposable(() => w.providers.delete(provider)); },
            }, 'tasks'),
            Task: class { constructor(definition, scope, name, source, execution, matchers) { Object.assign(this, { definition, scope, name, source, execution, matchers }); } },
            ShellExecution: class { constructor(command, args, options) { Object.assign(this, Array.isArray(args) ? { command, args, options } : { command, args: [], options: args }); } },
            ProcessExecution: class { constructor(command, args, options) { Object.assign(this, Array.isArray(args) ? { command, args, options } : { command, args: [], options: args }); } },
            TaskGroup: { Build: 'build', Test: 'test' },
        }, 'vscode');
    }

    require(name) {
        if (name === 'vscode') return this.vscode;
        if (name === 'vscode-languageclient/node' || name === 'vscode-languageclient') return this.languageClient();
        if (name === 'node-fetch') { const f = (u, i) => this.fetch(String(u), i || {}); f.default = f; f.__esModule = true; return f; }
        if (name.replace(/^node:/, '') === 'child_process') return this.childProcess();
        if (Module.builtinModules.includes(name.replace(/^node:/, ''))) {
            let m = require(name);
            if (/^(node:)?os$/.test(name)) m = Object.assign({}, m, { platform: () => this.o.platform || 'linux', homedir: () => this.o.home || '/home/user' });
            return this.o.builtins ? this.o.builtins(name.replace(/^node:/, ''), m) : m;
        }
        return nothing(name);
    }

    languageClient() {
        const w = this;
        class LanguageClient {
            constructor(...args) {
                // (id, name, server, client) or (name, server, client)
                const [server, client] = args.slice(args.findIndex((a) => typeof a === 'object'));
                Object.assign(this, { id: ++w.clients, server, clientOptions: client, state: 'new' });
            }
            start() {
                if (this.state !== 'new') throw new Error('started twice');
                this.state = 'running';
                const run = typeof this.server === 'function' ? {} : this.server.run || this.server;
                w.note('start', { id: this.id, cwd: (run.options || {}).cwd, command: run.command, selector: this.clientOptions.documentSelector, init: this.clientOptions.initializationOptions });
                return new Disposable(() => this.stop());
            }
            stop() {
                if (this.state === 'new') { this.state = 'stopped'; return Promise.resolve(); }
                if (this.state === 'running') {
                    this.state = 'stopping';
                    w.note('stop', { id: this.id });
                    this.stopped = w.ask('stop', this.id, () => { this.state = 'stopped'; });
                    this.stopped.catch(() => 0);
                }
                return this.stopped || Promise.resolve();
            }
            dispose() { return this.stop(); }
            needsStop() { return this.state === 'running'; }
            needsStart() { return this.state === 'new'; }
            onReady() { return Promise.resolve(); }
            onDidChangeState() { return new Disposable(); }
            registerProposedFeatures() {}
        }
        return rest({ LanguageClient, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, State: { Stopped: 1, Starting: 3, Running: 2 } }, 'lc');
    }

    /// run(command, args, options) of the description: {status, stdout, stderr}
    childProcess() {
        const w = this;
        const run = (command, args, options) => Object.assign({ status: 0, stdout: '', stderr: '' }, w.o.run ? w.o.run(command, args || [], options || {}) : {});
        const spawn = (command, args, options) => {
            const p = new EventEmitter();
            const out = [0, 1].map(() => new Readable({ read() {} }));
            [p.stdout, p.stderr] = out;
            p.pid = 1;
            p.kill = () => true;
            w.ask('process', { command, args, cwd: (options || {}).cwd }, () => run(command, args, options)).then((r) => {
                if (r.error) {
                    // could not be run: if nobody listens, that is all that happens
                    if (!p.listenerCount('error')) return;
                    p.emit('error', r.error);
                    let open = out.length;
                    for (const s of out) { s.on('end', () => { if (--open === 0) p.emit('close', -2, null); }); s.resume(); s.push(null); }
                    return;
                }
                // output may be left when the process has ended, and comes in pieces, wherever they end
                const pieces = [r.stdout, r.stderr].map((x) => {
                    const all = Buffer.from(x), wide = all.findIndex((byte) => byte > 127);
                    const at = wide < 0 ? all.length >> 1 : wide + 1;
                    return [all.subarray(0, at), all.subarray(at)].filter((x) => x.length);
                });
                out.forEach((s, i) => { if (pieces[i].length) s.push(pieces[i].shift()); });
                p.emit('exit', r.status, null);
                let open = out.length;
                for (const s of out) { s.on('end', () => { if (--open === 0) p.emit('close', r.status, null); }); if (s.readableFlowing === null) s.resume(); }
                setImmediate(() => out.forEach((s, i) => { for (const x of pieces[i]) s.push(x); s.push(null); }));
            });
            return p;
        };
        const sync = (command, args, options) => {
            const r = run(command, args, options);
            return { status: r.status, signal: r.signal || null, error: r.error, pid: 1, stdout: r.stdout, stderr: r.stderr, output: [null, r.stdout, r.stderr] };
        };
        const file = (command, args, options, cb) => {
            if (typeof args === 'function') { cb = args; args = []; options = {}; }
            if (typeof options === 'function') { cb = options; options = {}; }
            const p = spawn(command, args, options);
            let out = '', err = '';
            p.stdout.on('data', (d) => (out += d));
            p.stderr.on('data', (d) => (err += d));
            p.on('error', (e) => { if (cb) cb(e, '', ''); cb = undefined; });
            p.on('close', (code) => cb && cb(code ? Object.assign(new Error('exit ' + code), { code }) : null, out, err));
            return p;
        };
        const util = require('util');
        file[util.promisify.custom] = (c, a, o) => new Promise((res, rej) => file(c, a, o, (e, stdout, stderr) => (e ? rej(Object.assign(e, { stdout, stderr })) : res({ stdout, stderr }))));
        return {
            spawn, spawnSync: sync, execFile: file,
            execFileSync: (c, a, o) => { const r = sync(c, a, o); if (r.error) throw r.error; if (r.status) throw Object.assign(new Error('exit ' + r.status), r); return r.stdout; },
        };
    }

    /// A response whose body comes in pieces: the pending 'fetch' is answered with {status, json} or
    /// {status, length, chunks}; then each 'chunk' is pending.
    fetch(url, init) {
        this.note('fetch', { url, authorization: (init.headers || {}).Authorization || (init.headers || {}).authorization || '' });
        return this.ask('fetch', { url }, (x) => {
            const w = this;
            const headers = { get: (k) => (k.toLowerCase() === 'content-length' && x.length !== undefined ? String(x.length) : null) };
            const body = new Readable({ read() {} });
            const res = {
                ok: x.status >= 200 && x.status < 300, status: x.status, statusText: '', headers, body,
                json: async () => x.json, text: async () => (x.json ? JSON.stringify(x.json) : ''),
                buffer: async () => { const all = []; for await (const c of body) all.push(c); return Buffer.concat(all); },
            };
            res.arrayBuffer = async () => { const b = await res.buffer(); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); };
            const chunks = [...(x.chunks || [])];
            const next = () => {
                w.pending.push({
                    kind: 'chunk', about: { url, left: chunks.length },
                    answer: () => { if (chunks.length) { body.push(chunks.shift()); next(); } else body.push(null); },
                    fail: (e) => body.destroy(e),
                });
            };
            if (x.chunks) next();
            else { body.push(x.json ? JSON.stringify(x.json) : ''); body.push(null); }
            return res;
        });
    }

    /// What the editor's list of tasks offers.
    async offered() {
        const all = [];
        for (const p of this.providers) for (const t of (await p.provideTasks()) || []) {
            const e = t.execution || {};
            const text = (x) => (x && typeof x === 'object' ? x.value : x);
            all.push({
                folder: t.scope && t.scope.uri ? t.scope.uri.fsPath : '', cwd: (e.options || {}).cwd || (t.scope && t.scope.uri ? t.scope.uri.fsPath : ''),
                words: [e.command, ...(e.args || [])].map(text).join(' ').split(' '), group: String((t.group && t.group.id) || t.group),
            });
        }
        return all;
    }

    async activate() {
        this.note('activate', {});
        try { await this.extension.activate(this.context); } catch (e) { this.errors.push(String(e && e.message)); }
    }
}

/// Until nothing moves but for what is pending.
async function settle() {
    let calm = 0;
    for (let i = 0; i < 100000 && calm < 4; i++) {
        await new Promise((r) => setImmediate(r));
        calm = process.getActiveResourcesInfo().some((x) => x.startsWith('FSReq')) ? 0 : calm + 1;
    }
}

module.exports = { build, World, Uri, settle };
