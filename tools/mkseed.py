#!/usr/bin/env python3
"""Makes and confirms a planted bug: mkseed.py DESCRIPTION.py (run by hand; no check uses this).

The description defines id, property, needs, breaks, edits = [(file, old, new)...] and either
main (Rust program) with deps, or demo (Python program)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/sd/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)


JS = '''const assert = require('assert'), fs = require('fs'), path = require('path');
const { build, World, Uri, settle } = require('./world.js');
process.on('unhandledRejection', () => undefined);
const code = build(process.argv[2]);
const meta = (x) => ({ stdout: JSON.stringify(Object.assign({ package: Object.assign({ name: 'n', account_address: '0x1', authors: [], local_dependencies: [], git_dependencies: [], dialect: 'pont' }, x) }, { layout: { modules_dir: '/m' } })) });
const live = (w) => w.log.filter((e) => e.ev === 'start' && !w.log.some((s) => s.ev === 'stop' && s.id === e.id));
const editor = (o) => new World(code, Object.assign({ folders: ['/p/a', '/q/a'], stat: () => ({}), settings: { 'move.doveExecutablePath': '/dove', 'move.languageServerPath': '/ls' }, run: (c, args) => (args[0] === 'metadata' ? meta({}) : {}) }, o));
const show = async (w, p) => { w.active = p ? w.document({ path: p }) : undefined; w.events.emit('onDidChangeActiveTextEditor', w.active && { document: w.active }); await settle(); };
const main = (f) => f().then(() => process.exit(0), (e) => { console.error(e); process.exit(1); });
main(async () => {
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=R, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(f):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq')
    os.makedirs(d, exist_ok=True)
    for name in os.listdir(d):
        os.unlink(os.path.join(d, name))
    lib = os.path.join(V, 'tools', 'seedlib')
    if 'main' in g:
        shutil.copy(os.path.join(lib, 'rust.sh'), os.path.join(d, 'demo.sh'))
        open(os.path.join(d, 'main.rs'), 'w').write(g['main'])
        open(os.path.join(d, 'deps'), 'w').write('\n'.join(g['deps']) + '\n')
    elif 'js' in g:
        shutil.copy(os.path.join(lib, 'js.sh'), os.path.join(d, 'demo.sh'))
        shutil.copy(os.path.join(V, 'editor', 'world.js'), d)
        open(os.path.join(d, 'demo.js'), 'w').write(JS + g['js'].rstrip() + '\n});\n')
    else:
        shutil.copy(os.path.join(lib, 'py.sh'), os.path.join(d, 'demo.sh'))
        shutil.copy(os.path.join(lib, 'lspc.py'), d)
        open(os.path.join(d, 'demo.py'), 'w').write('from lspc import *\n' + g['demo'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    b = sh('cargo build --workspace --offline')
    assert b.returncode == 0, b.stdout
    r = sh('bash %s/demo.sh' % d)
    print('unchanged: demo', r.returncode, r.stdout[-600:])
    ok = r.returncode == 0
    for file, old, new in g['edits']:
        p = os.path.join(R, file)
        s = open(p).read()
        assert s.count(old) == 1, (file, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff').stdout)
    b = sh('cargo build --workspace --offline')
    assert b.returncode == 0, b.stdout[-3000:]
    t = sh('cargo test --workspace --offline --no-fail-fast')
    base = json.load(open('/opt/vp/BASELINE.json'))
    failed = [l for l in t.stdout.splitlines() if l.endswith('FAILED')]
    print('patched: tests', t.returncode, failed)
    r = sh('bash %s/demo.sh' % d)
    print('patched: demo', r.returncode, r.stdout[-600:])
    sh('git checkout -q -f .')
    ok = ok and r.returncode not in (0, 3) and t.returncode == 0
    print(g['id'], 'CONFIRMED' if ok else 'NOT CONFIRMED')
    if not ok:
        shutil.rmtree(d)
    return 0 if ok else 1


sys.exit(max(main(f) for f in sys.argv[1:]))
