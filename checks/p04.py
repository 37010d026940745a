"""P04: start-up, negotiation and termination follow the protocol (spec Lifecycle)."""
import os, random
from concurrent.futures import ThreadPoolExecutor
from lib.core import build_server
from lib.lsp import *
from lib.stdio import Server

# an error behind characters of every width: 1 byte/1 unit, 2/1, 3/1, 4/2
TEXT = '\nmodule M { /* no such comment \U0001f600\u65e5\u00e9 */ }'


LOGS = [lambda d, k: {'MOVE_LS_LOG': 'trace'}, lambda d, k: {'MOVE_LS_LOG': 'info,lsp_server=debug'}, lambda d, k: {'MOVE_LS_LOG': '=[,'},
        lambda d, k: {'MOVE_LS_LOG': 'debug', 'CHALK_DEBUG': 'debug'}, lambda d, k: {'MOVE_LS_LOG': 'trace', 'RA_LOG_FILE': d + '/logs/%d.log' % k},
        lambda d, k: {'RA_LOG_FILE': d + '/logs/%d.log' % k, 'RUST_BACKTRACE': '1'}]
PLACES = ['', '/good', '/good/src', '/bad', '/many', '/loop', '/no/such/dir', '/good/Dove.toml', '/%C3%A9%20x', '/many/..']


def make_places(cwd):
    for d in ['good/src', 'bad', 'many/a', 'many/b', 'many/c', 'é x']:
        os.makedirs(os.path.join(cwd, d))
    good = '[package]\nname = "p"\n'
    for f, t in [('good', good), ('bad', '[package\n\x00'), ('many/a', good), ('many/b', ''), ('é x', good)]:
        open(os.path.join(cwd, f, 'Dove.toml'), 'w').write(t)
    os.makedirs(os.path.join(cwd, 'many/c/Dove.toml'))
    os.symlink('loop', os.path.join(cwd, 'loop'))


def columns(utf8):
    line = TEXT.split('\n')[1]
    return {'line': 1, 'end': len(line.encode()) if utf8 else len(line.encode('utf-16-le')) // 2}


def live(exe, cwd, hist, k):
    """Follows one life; returns what is wrong with it, or None."""
    # some are long: what leaves the state alone may happen any number of times
    if k % 97 == 5:
        hist = [step for step in hist for _ in range(70 if step['do'] in ('request', 'note', 'open') else 1)]
    rng = random.Random(k)
    # how it logs, and where it finds projects, are none of the editor's business
    env = rng.choice(LOGS)(cwd, k) if k % 3 else {}
    places = ['file://' + cwd + p for p in PLACES] + ['untitled:Untitled-1', 'vscode-remote://ssh-remote%2Bx' + cwd, 'file://host/w', 'git:/x']
    s = Server(exe, cwd, env)
    try:
        n = 0
        for i, step in enumerate(hist):
            n += 1
            do, want = step['do'], step['expect']
            id_ = n if k % 2 else 'q%d' % n

            def answer():
                while True:
                    m = s.receive()
                    if m is None:
                        return 'the output ended, instead of an answer to %s' % do
                    if 'method' in m:
                        if m['method'] == 'textDocument/publishDiagnostics':
                            continue
                        return 'unexpected %s during %s' % (m['method'], do)
                    return m

            if do == 'initialize':
                caps = {}
                if step['encodings'] or k % 3:
                    caps['offsetEncoding'] = step['encodings'][:] if k % 2 else step['encodings'][::-1]
                    # and what nobody knows
                    for _ in range(rng.choice([0, 0, 1, 9])):
                        caps['offsetEncoding'].insert(rng.randint(0, len(caps['offsetEncoding'])), rng.choice(['utf-7', 'utf8', 'utf-8x', '', 'utf-80', 'latin1']))
                sync = {}
                if step['dyn'] or k % 3:
                    sync['dynamicRegistration'] = step['dyn']
                if step['save'] or k % 5:
                    sync['didSave'] = step['save']
                if sync or k % 7:
                    caps['textDocument'] = {'synchronization': sync}
                params = {'processId': None, 'rootUri': rng.choice([None] + places), 'capabilities': caps}
                if rng.random() < .4:
                    params['workspaceFolders'] = [{'uri': u, 'name': 'w'} for u in rng.sample(places, rng.randint(0, 4))]
                elif rng.random() < .3:
                    params['workspaceFolders'] = None
                if rng.random() < .3:
                    params.update(clientInfo=rng.choice([None, {'name': 'c'}, {'name': '', 'version': '1'}]), trace=rng.choice(['off', 'verbose']),
                                  initializationOptions=rng.choice([None, {}, [1], 'x']), locale='en')
                s.send(request(id_, 'initialize', params))
                m = answer()
                if isinstance(m, str):
                    return m
                res = m.get('result')
                if m.get('id') != id_ or not res:
                    return 'initialize answered by %s' % m
                sync = res['capabilities'].get('textDocumentSync')
                if not isinstance(sync, dict) or sync.get('openClose') is not True or sync.get('change') not in (1, 2):
                    return 'the server does not ask for document changes: %s' % sync
                enc = res.get('offsetEncoding')
                if (enc == 'utf-8') != (want == 'bytes') or enc not in (None, 'utf-8', 'utf-16'):
                    return 'encoding %s negotiated, the editor offers %s' % (enc, step['encodings'])
            elif do == 'initialized':
                s.send(note('initialized', {}))
                # an answered request tells that everything before has been sent
                s.send(request('sync', 'no/such/request', {}))
                seen = []
                while True:
                    m = s.receive()
                    if m is None:
                        return 'the server ended after initialized'
                    if m.get('id') == 'sync' and 'method' not in m:
                        break
                    seen.append(m)
                regs = [r for m in seen if m.get('method') == 'client/registerCapability' for r in m['params']['registrations']]
                if [r['method'] for r in regs] != (['textDocument/didSave'] if want == 'registers' else []):
                    return 'registered for %s, expected %s' % (seen, want)
                if len(seen) != len(regs):
                    return 'unexpected messages %s' % seen
                registration = [m['id'] for m in seen]
            elif do == 'reply':
                for i in registration:
                    s.send({'id': i, 'result': None} if step['ok'] else
                           {'id': i, 'error': {'code': [-32601, -32603, 1][k % 3], 'message': 'no'}} if k % 2 else
                           {'id': i, 'error': {'code': -32803, 'message': '', 'data': [{}]}})
            elif do in ('request', 'shutdown'):
                method = 'shutdown' if do == 'shutdown' else ['textDocument/hover', 'shutdown2', '$/x'][k % 3]
                if want == 'invalid' and k % 2:
                    method = 'shutdown'
                s.send(request(id_, method))
                m = answer()
                if isinstance(m, str):
                    return m
                if m.get('id') != id_:
                    return 'the answer to %s is for %s' % (id_, m)
                code = m.get('error', {}).get('code')
                if want == 'null':
                    if 'result' not in m or m['result'] is not None or code is not None:
                        return 'shutdown answered by %s' % m
                elif code != {'not-initialized': -32002, 'not-found': -32601, 'invalid': -32600}[want]:
                    return '%s answered by %s, expected %s' % (method, m, want)
            elif do == 'note':
                s.send([note('$/setTrace', {'value': 'off'}), note('textDocument/didSave', {}), note('foo', None),
                        note('workspace/didChangeConfiguration', {'settings': None})][k % 4])
            elif do == 'open':
                s.send(did_open('file:///w/a%d.move' % n, 1, TEXT))
                while True:
                    m = s.receive()
                    if m is None:
                        return 'the output ended, instead of diagnostics'
                    if m.get('method') == 'textDocument/publishDiagnostics' and m['params']['uri'].endswith('a%d.move' % n):
                        break
                got = m['params']['diagnostics']
                c = columns(want == 'bytes')
                if not got or any(d['range']['end']['character'] > c['end'] or d['range']['end']['line'] > 1 for d in got):
                    return 'diagnostics outside of the text: %s' % got
                cols = [d['range']['start']['character'] for d in got]
                from_bytes = EXPECT[want == 'bytes']
                if cols != from_bytes:
                    return 'diagnostics at columns %s, expected %s' % (cols, from_bytes)
            elif do in ('exit', 'vanish'):
                if do == 'exit':
                    s.send(note('exit', None))
                else:
                    s.vanish(output_too=k % 3 == 0)
                rc = s.wait()
                if rc is None:
                    return 'the process does not end after %s' % do
                if (rc == 0) != (want == 'zero'):
                    return 'the process ends with status %d after %s' % (rc, [h['do'] for h in hist])
        return None
    except TimeoutError:
        return 'no message within 15 s after %s' % [h['do'] for h in hist[:n]]
    finally:
        s.kill()


EXPECT = {}


def check(ck):
    exe = build_server(ck)
    cwd = os.path.join(ck.work, 'home')
    os.makedirs(cwd)
    make_places(cwd)
    # where the problems are, in bytes, from the library; in the other unit by counting
    line = TEXT.split('\n')[1]
    found = ck.run('diags', [{'s': [ord(c) for c in TEXT], 'utf8': True}])[0]['ok']
    EXPECT[True] = [d[1] for d in found]
    EXPECT[False] = [len(line.encode()[:c].decode().encode('utf-16-le')) // 2 for c in EXPECT[True]]
    if not found or EXPECT[True] == EXPECT[False]:
        ck.log('the text tells units apart: no')
    depth = 7 if ck.thorough else 6
    hists = ck.emitted('LifecycleGen', spec='GSpec', label='all lives of up to %d messages' % depth,
                       constants={'Encodings': '<- EncodingsDef', 'Depth': str(depth)}, invariants=['Zero', 'ExitProper', 'Emit'])
    total = len(hists)
    limit = 40000 if ck.thorough else 9000
    if len(hists) > limit:
        short = [h for h in hists if len(h) <= 4]
        rest = [h for h in hists if len(h) > 4]
        hists = ck.rng.sample(short, min(len(short), limit // 2)) + ck.rng.sample(rest, min(len(rest), limit // 2))
    ck.cases += len(hists)
    bad = 0
    with ThreadPoolExecutor(12) as ex:
        for h, why in zip(hists, ex.map(lambda x: live(exe, cwd, x[1], x[0]), enumerate(hists))):
            if why:
                bad += 1
                ck.violation(why, {'part': 'lives', 'case': h, 'got': why})
            else:
                ck.replayed += 1
    ck.part('replay lives', lives=len(hists), of=total, wrong=bad)
    ck.sample({'life': hists[len(hists) // 2]})
