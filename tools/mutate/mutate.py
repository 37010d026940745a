#!/usr/bin/env python3
"""Mutation testing of the checks (by hand; no check uses this).
   mutate.py list FILE...           the mutants of source files of /repo, numbered
   mutate.py run LANES SEED N [FILE...]   runs N of them, sampled, in LANES private copies of /repo and /verif
Results go to /tmp/mut/results.jsonl: caught (by which check), build (does not compile), tests (the stable
tests fail), SURVIVED. A survivor is a change that breaks nothing, or a hole in the checks."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
TOP = '/tmp/mut'
LS = 'crates/move_language_server/src/'
MAP = [('crates/parser/src/lexer.rs', 'P13 P23 P15 P16'), ('crates/parser/src/grammar', 'P23 P15 P14 P16 P07'), ('crates/parser/src/', 'P14 P23 P15 P07 P16 P13'),
       ('crates/syntax/', 'P14 P18 P16 P15 P11 P07'), ('crates/ide_db/src/line_index.rs', 'P17 P18 P05'), ('crates/ide_db/', 'P11 P12'), ('crates/base_db/', 'P11 P12 P10'),
       ('crates/ide/', 'P11 P12 P18'), ('crates/ide_diagnostics/', 'P18 P11'), ('crates/vfs/src/vfs_path.rs', 'P19 P10 P09 P24'), ('crates/vfs/src/file_set.rs', 'P09 P10'),
       ('crates/vfs/src/loader.rs', 'P20'), ('crates/vfs/src/anchored_path.rs', 'P10'), ('crates/vfs/', 'P08 P24 P05'), ('crates/paths/', 'P19 P24 P21'), ('crates/project_model/', 'P21 P04'),
       (LS + 'diagnostics.rs', 'P22 P01'), (LS + 'main_loop.rs', 'P05 P24 P03 P04 P01 P02 P12 P07'), (LS + 'global_state.rs', 'P05 P03 P01 P02 P12 P04 P07'),
       (LS + 'dispatch.rs', 'P03 P04 P05'), (LS + 'from_proto.rs', 'P17 P24 P05'), (LS + 'to_proto.rs', 'P17 P18 P24 P04'), (LS + 'line_index.rs', 'P06 P17'),
       (LS + 'lsp_utils.rs', 'P05 P03'), (LS + 'mem_docs.rs', 'P05 P01 P02'), (LS + 'thread_pool.rs', 'P12 P03 P07 P01'), (LS + 'handlers.rs', 'P18 P06 P01'),
       (LS + 'reload.rs', 'P01 P04 P05'), (LS, 'P04 P03 P05 P18')]
OPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=[( ])!(?=[a-z(])', ''),
       (r'\bif (?!let\b)([^{]+) \{$', r'if true || \1 {'), (r'\bif (?!let\b)([^{]+) \{$', r'if false && (\1) {'), (r'\bwhile (?!let\b)([^{]+) \{$', r'while false && (\1) {'),
       (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\breturn None;', ''), (r'\breturn;', ''), (r'\.rev\(\)', ''),
       (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\b128\b', '127'), (r'\.expect\(', '.eat('), (r'p\.error\(([^)]*)\);', ';'), (r'\.insert\(0, ', '.push('),
       (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.is_empty\(\)', '.len() == 1'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.find\(', '.rfind('), (r'\.rfind\(', '.find('),
       (r'\.starts_with\(', '.ends_with('), (r'\.ends_with\(', '.starts_with('), (r'\.parent\(\)', '.file_name()'), (r'\bSome\((\w+)\) =>', r'Some(\1) if false =>'),
       (r'T!\[([^]]*)\] \| ', ''), (r'\bT!\[;\],? ?', ''), (r'\.unwrap_or\(true\)', '.unwrap_or(false)'), (r'\.dedup\(\);', '.len();'), (r'\.sort\(\);', '.len();'),
       (r'Ok\(it\) => it', 'Ok(it) if false => it'), (r'Error\b', 'WeakWarning'), (r'\.clone\(\)\)$', '.clone())'), (r'encode_utf16\(\)\.count\(\)', 'len()'), (r'len_utf16\(\)', 'len_utf8()'), (r'len_utf8\(\)', 'len_utf16()'),
       (r'^(\s+)(self\.|p\.|this\.|m\.|s\.)?[a-z_.]+\([^=]*\);$', r'\1;'), (r'^(\s+)[a-z_.\[\]]+ \+?= [^;]*;$', r'\1;'), (r'^\s+T!\[[^]]*\],$', '')]


def mutants(path):
    text = open('/repo/' + path).read()
    cut = re.search(r'#\[cfg\(test\)\]\s*\nmod ', text)
    lines = text.split('\n')
    end = text[:cut.start()].count('\n') if cut else len(lines)
    res = []
    skip = False
    for i, line in enumerate(lines[:end]):
        s = line.strip()
        if s.startswith(('//', '#', 'use ', 'pub use', 'mod ')) or not s or 'tracing::' in s or 'move_ls_verif' in (lines[i - 1] if i else '') or 'assert!' in s:
            continue
        code = line.split(' // ')[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if pat.startswith(r'\b') and len(pat) < 8 and '"' in code:
                    continue
                new = line[:m.start()] + m.expand(rep) + line[m.end():]
                if new != line:
                    res.append((path, i, line, new))
    return res


def checks_of(path):
    for p, c in MAP:
        if path.startswith(p):
            return c.split()
    return []


def live(path):
    return checks_of(path) and '/tests' not in path and not re.search(r'fixture|bench|verif\.rs|generated|ast/|lsp_ext|op_queue|minicore', path)


def all_files():
    out = subprocess.check_output(['git', '-C', '/repo', 'ls-files', '*.rs'], text=True).split()
    return [f for f in out if live(f)]


CACHE = '''
import hashlib as _h, pickle as _p
_tlc = Check.tlc
def _cached(self, module, **kw):
    env = dict(kw.get('env') or {})
    k = dict(kw); cases = env.pop('CASES', None); k['env'] = env
    h = _h.sha1(repr((module, sorted(k.items(), key=str), self.seed)).encode())
    for f in sorted(os.listdir(SPEC)):
        h.update(open(os.path.join(SPEC, f), 'rb').read())
    if cases:
        h.update(open(cases, 'rb').read())
    for v in env.values():
        if isinstance(v, str) and os.path.isfile(v):
            h.update(open(v, 'rb').read())
    p = os.path.join('%s', h.hexdigest())
    if os.path.exists(p):
        r = _p.load(open(p, 'rb'))
        self.states += r.distinct; self.transitions += r.generated
        return r
    r = _tlc(self, module, **kw)
    if r.rc == 0:
        q = p + '.%%d' %% os.getpid()
        _p.dump(r, open(q, 'wb')); os.replace(q, p)
    return r
Check.tlc = _cached
''' % (TOP + '/cache')


def setup(k, lanes):
    d = '%s/L%d' % (TOP, k)
    if os.path.exists(d):
        return
    os.makedirs(d)
    subprocess.check_call('cp -a /repo %s/repo && mkdir %s/verif && cd /verif && cp -a bin checks lib spec harness MANIFEST.json properties.jsonl KNOWN_FINDINGS.txt %s/verif/ && mkdir -p %s/verif/work %s/verif/evidence && cp -a work/server-target %s/verif/work/' % ((d,) * 6), shell=True)
    p = d + '/verif/lib/core.py'
    s = open(p).read()
    s = s.replace('\ndef main(', CACHE + '\ndef main(')
    s = re.sub(r'^NPROC = .*$', 'NPROC = %d' % max(2, 9 // lanes), s, flags=re.M)
    open(p, 'w').write(s)


def inside(k, cmd, timeout=900):
    d = '%s/L%d' % (TOP, k)
    full = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s' % (d, d, cmd)
    try:
        p = subprocess.run(['unshare', '-m', 'bash', '-c', full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def stable_ok(k):
    rc, out = inside(k, 'cd /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mut/t%d.json' % k)
    if rc not in (0, 1):
        pass
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    try:
        r = json.load(open('/tmp/mut/t%d.json' % k))
        passed = set(r.get('passed', []))
        return base <= passed, sorted(base - passed)
    except Exception as e:
        return False, [str(e), out[-300:]]


def one(k, m):
    path, i, old, new = m
    f = '%s/L%d/repo/%s' % (TOP, k, path)
    orig = open(f).read()
    lines = orig.split('\n')
    assert lines[i] == old, m
    lines[i] = new
    open(f, 'w').write('\n'.join(lines))
    t = time.time()
    try:
        log = []
        for c in checks_of(path):
            rc, out = inside(k, 'python3 bin/check.py %s --tier quick' % c)
            if rc == 1 and 'VIOLATION property=' in out:
                what = [l for l in out.splitlines() if 'violation:' in l][:1]
                return {'m': m, 'verdict': 'caught', 'by': c, 'what': (what or [''])[0][:200], 's': round(time.time() - t)}
            if rc == 2 and 'cannot build' in out:
                return {'m': m, 'verdict': 'build', 's': round(time.time() - t)}
            if rc != 0:
                log.append([c, rc, out[-300:]])
        ok, why = stable_ok(k)
        return {'m': m, 'verdict': 'SURVIVED' if ok else 'tests', 'why': why[:3], 'log': log, 's': round(time.time() - t)}
    finally:
        open(f, 'w').write(orig)


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:] or all_files():
            ms = mutants(f)
            print(f, len(ms))
            for m in ms if len(sys.argv) > 2 else []:
                print('  %d  %s\n   -> %s' % (m[1] + 1, m[2].strip(), m[3].strip()))
        return
    lanes, seed, n = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    os.makedirs(TOP + '/cache', exist_ok=True)
    for k in range(lanes):
        setup(k, lanes)
    files = sys.argv[5:] or all_files()
    todo = [m for f in files for m in mutants(f)]
    random.Random(seed).shuffle(todo)
    done = {json.dumps(json.loads(l)['m']) for l in open(TOP + '/results.jsonl')} if os.path.exists(TOP + '/results.jsonl') else set()
    todo = [m for m in todo if json.dumps(m) not in done][:n]
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()

    def lane(k):
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            r = one(k, m)
            with lock:
                with open(TOP + '/results.jsonl', 'a') as f:
                    f.write(json.dumps(r) + '\n')
                print(r['verdict'], r.get('by', ''), '%ss' % r['s'], m[0], m[1] + 1, '|', m[2].strip(), '->', m[3].strip(), flush=True)
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
