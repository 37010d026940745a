"""Shared machinery of the checks: building the harness, running it, running TLC, verdicts."""
import fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
WORK = os.path.join(VERIF, 'work')
NPROC = min(8, os.cpu_count() or 1)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


def canon(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=False, separators=(',', ':'))


def runs_of(s):
    """A sequence of code points as runs (spec Runs)."""
    res = []
    for c in s:
        if res and res[-1][0] == c:
            res[-1][1] += 1
        else:
            res.append([c, 1])
    return res


def text_of(cps):
    return ''.join(chr(c) for c in cps)


def cps_of(text):
    return [ord(c) for c in text]


class Enough(Exception):
    """Cases of the real code do not come to an end; what was found stands and the rest is not run."""


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%d' % (pid, seed))
        self.t0 = time.time()
        self.work = os.path.join(WORK, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.replayed = self.validated = self.cases = 0
        self.samples, self.violations, self.parts = [], [], []
        self.extra = {}
        self.assumptions = []

    # ------------------------------------------------------------ bookkeeping
    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def part(self, name, **counts):
        self.parts.append(dict(part=name, **counts))
        self.log(name, ' '.join('%s=%s' % kv for kv in counts.items()))

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            s = canon(x)
            self.samples.append(x if len(s) < 4000 else s[:4000] + '...')

    def violation(self, what, case):
        """Registers a violation: `what` in words, `case` enough to run it again."""
        self.violations.append((what, case))
        if len(self.violations) <= 5:
            self.log('violation:', what)

    # ------------------------------------------------------------ verdict
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        known = dict(self.known())
        fresh = []
        for what, case in self.violations:
            key = case_key(case)
            if key not in known:
                fresh.append((key, what, case))
        for key, desc in known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, desc))
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.replayed + self.validated,
            'behaviours_replayed_into_impl': self.replayed,
            'recordings_validated_by_tlc': self.validated,
            'samples': self.samples or ['none'], 'parts': self.parts,
        }
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(path + '.tmp', path)
        if fresh:
            rdir = os.path.join(WORK, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for n, (key, what, case) in enumerate(fresh[:5]):
                rp = os.path.join(rdir, '%s-%s.json' % (self.pid, key))
                with open(rp, 'w') as f:
                    json.dump({'property': self.pid, 'what': what, 'key': key, 'case': case}, f,
                              indent=1, ensure_ascii=False)
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        self.log('held on everything explored: %d spec states, %d behaviours replayed, %d recordings'
                 ' validated' % (self.states, self.replayed, self.validated))
        return 0

    # ------------------------------------------------------------ harness
    def harness(self, runner):
        if not hasattr(self, '_harness'):
            self._harness = Harness(self)
        return self._harness.executable(runner)

    def can(self, runner):
        """Whether the harness can reach what this runner drives: if not, a hook into private items
        does not fit the code any more, and the check says what it could not look at."""
        try:
            self.harness(runner)
            return True
        except ToolError as e:
            self.log('cannot drive %s: %s' % (runner, str(e)[-600:]))
            self.part('not looked at: ' + runner)
            return False

    def run(self, runner, cases, timeout=20.0, procs=NPROC, mem_gb=4, args=(), chunk=None):
        """Runs every case in the harness. Result per case: {"ok": value}, {"panic": message},
        {"crash": how} or {"hang": seconds}."""
        exe = self.harness(runner)
        cases = list(cases)
        self.cases += len(cases)
        if not cases:
            return []
        n = chunk or max(1, min((len(cases) + procs - 1) // procs, 4000))
        chunks = [(i, cases[i:i + n]) for i in range(0, len(cases), n)]
        results = [None] * len(cases)
        d = os.path.join(self.work, 'run-%s-%d' % (runner, random.randrange(1 << 30)))
        os.makedirs(d)
        lost = [0.0]

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def work(item):
            base, part = item
            inp, out = os.path.join(d, '%d.in' % base), os.path.join(d, '%d.out' % base)
            with open(inp, 'w') as f:
                for c in part:
                    f.write(json.dumps(c, ensure_ascii=False) + '\n')
            start = 0
            while start < len(part) and lost[0] < 200:
                p = subprocess.run([exe, runner, inp, out, str(start), str(timeout)] + list(args),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   preexec_fn=limits, env=harness_env())
                got = 0
                if os.path.exists(out):
                    with open(out, encoding='utf-8', errors='replace') as f:
                        for line in f:
                            if line.endswith('\n'):
                                r = json.loads(line)
                                results[base + start + got] = r
                                got += 1
                    os.unlink(out)
                start += got
                if p.returncode == 0:
                    if start < len(part):
                        raise ToolError('harness stopped early in ' + runner)
                elif p.returncode == 9 and got and 'hang' in results[base + start - 1]:
                    lost[0] += timeout
                elif p.returncode == 10:
                    lost[0] += 70
                elif p.returncode == 2:
                    raise ToolError('harness: ' + p.stderr.decode(errors='replace')[-2000:])
                elif start < len(part):
                    err = p.stderr.decode(errors='replace')
                    results[base + start] = {'crash': crash_text(p.returncode, err)}
                    start += 1
            os.unlink(inp)

        with ThreadPoolExecutor(procs) as ex:
            list(ex.map(work, chunks))
        shutil.rmtree(d, ignore_errors=True)
        if None in results:
            for c, r in zip(cases, results):
                if r and ('hang' in r or isinstance(r.get('ok'), dict) and r['ok'].get('stuck')):
                    self.violation('this does not come to an end: %s' % canon(r)[:300], {'part': runner, 'case': c, 'got': r})
            raise Enough()
        return results

    # ------------------------------------------------------------ TLC
    def tlc(self, module, spec='Spec', constants=None, invariants=(), properties=(), constraint=None,
            postcondition=None, view=None, env=None, workers=NPROC, heap='6g', timeout=900,
            simulate=None, depth=None, deadlock=False, name=None, symmetry=None, extra=(),
            action_constraint=None, jvm=()):
        name = name or module
        d = os.path.join(self.work, 'tlc-%s-%d' % (name, random.randrange(1 << 30)))
        os.makedirs(d)
        cfg = os.path.join(d, name + '.cfg')
        lines = ['SPECIFICATION ' + spec]
        for k, v in (constants or {}).items():
            lines.append('CONSTANT %s %s' % (k, v if v.startswith('<-') else '= ' + v))
        lines += ['INVARIANT ' + i for i in invariants]
        lines += ['PROPERTY ' + i for i in properties]
        if constraint:
            lines.append('CONSTRAINT ' + constraint)
        if action_constraint:
            lines.append('ACTION_CONSTRAINT ' + action_constraint)
        if postcondition:
            lines.append('POSTCONDITION ' + postcondition)
        if view:
            lines.append('VIEW ' + view)
        if symmetry:
            lines.append('SYMMETRY ' + symmetry)
        lines.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        with open(cfg, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dfile.encoding=UTF-8',
               '-Dstdout.encoding=UTF-8', *jvm, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE',
               '-metadir', os.path.join(d, 'states'), '-config', cfg, '-workers', str(workers)]
        if simulate:
            cmd += ['-simulate', simulate, '-seed', str(self.seed)]
        if depth:
            cmd += ['-depth', str(depth)]
        cmd += list(extra) + [module + '.tla']
        out_path = os.path.join(d, 'out')
        e = dict(os.environ, LC_ALL='C.UTF-8')
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        with open(out_path, 'wb') as out:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, stdout=out, stderr=subprocess.STDOUT, env=e,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError('TLC took more than %d s on %s' % (timeout, name))
        res = TlcResult(name, rc, open(out_path, encoding='utf-8', errors='replace').read(),
                        time.time() - t)
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        self.states += res.distinct
        self.transitions += res.generated
        return res

    def model(self, module, label=None, **kw):
        """Model checks a specification; its own properties must hold (else the spec is broken)."""
        r = self.tlc(module, **kw)
        if r.rc != 0:
            raise ToolError('TLC rejects %s itself (rc %d):\n%s' % (r.name, r.rc, r.tail()))
        self.part(label or ('model ' + r.name), states=r.distinct, transitions=r.generated,
                  seconds=round(r.seconds, 1))
        return r

    def emitted(self, module, label=None, **kw):
        """Model checks a specification that prints behaviours as JSON; returns those."""
        r = self.model(module, label, **kw)
        return r.json()

    def validate(self, module, records, label=None, constants=None, spec='Spec', env=None, **kw):
        """Lets TLC judge recorded cases. `module` reads them from IOEnv.CASES and prints
        {"bad": k, ...} for every rejected record k (1-based). Returns the printed objects."""
        if not records:
            return []
        path = os.path.join(self.work, 'cases-%s-%d.ndjson' % (module, random.randrange(1 << 30)))
        with open(path, 'w') as f:
            for r in records:
                f.write(json.dumps(r, ensure_ascii=False) + '\n')
        env = dict(env or {}, CASES=path)
        r = self.tlc(module, spec=spec, constants=constants, invariants=kw.pop('invariants', ('Judge',)),
                     env=env, **kw)
        if r.rc != 0:
            raise ToolError('TLC failed on %s (rc %d):\n%s' % (r.name, r.rc, r.tail()))
        if r.distinct < len(records):
            raise ToolError('%s looked at %d states for %d records' % (module, r.distinct, len(records)))
        bad = [x for x in r.json() if 'bad' in x]
        self.validated += len(records) - len({x['bad'] for x in bad})
        self.part(label or ('validate ' + r.name), records=len(records), rejected=len(bad),
                  states=r.distinct, seconds=round(r.seconds, 1))
        os.unlink(path)
        return bad

    def validate_traces(self, module, traces, label=None, constants=None, env=None, **kw):
        """Trace validation: `module` steps through the traces (IOEnv.CASES) with the actions of the
        specification, prints {"accepted": k} at the end of trace k. Returns rejected indices (0-based)
        with the number of the first line that no action explains."""
        if not traces:
            return []
        path = os.path.join(self.work, 'traces-%s-%d.ndjson' % (module, random.randrange(1 << 30)))
        with open(path, 'w') as f:
            for r in traces:
                f.write(json.dumps(r, ensure_ascii=False) + '\n')
        env = dict(env or {}, CASES=path)
        r = self.tlc(module, constants=constants, env=env, **kw)
        if r.rc not in (0,):
            raise ToolError('TLC failed on %s (rc %d):\n%s' % (r.name, r.rc, r.tail()))
        acc = {x['accepted'] for x in r.json() if 'accepted' in x}
        rej = [i for i in range(len(traces)) if i + 1 not in acc]
        self.validated += len(traces) - len(rej)
        self.part(label or ('trace validation ' + r.name), traces=len(traces), rejected=len(rej),
                  states=r.distinct, seconds=round(r.seconds, 1))
        reached = {}
        for x in r.json():
            if 'at' in x:
                reached[x['at']] = max(reached.get(x['at'], 0), x['line'])
        os.unlink(path)
        return [(i, reached.get(i + 1, None)) for i in rej]

    def compare(self, label, cases, expected, results, describe=None):
        """Compares the observations of the real code with those the specification prescribes."""
        bad = 0
        for c, e, r in zip(cases, expected, results):
            if 'ok' not in r or canon(r['ok']) != canon(e):
                bad += 1
                what = describe(c, e, r) if describe else '%s: expected %s, got %s' % (
                    label, canon(e)[:300], canon(r)[:300])
                self.violation(what, {'part': label, 'case': c, 'expected': e, 'got': r})
            else:
                self.replayed += 1
        self.part('replay ' + label, cases=len(cases), differing=bad)
        return bad


def case_key(case):
    c = case.get('case', case) if isinstance(case, dict) else case
    return hashlib.sha256(canon(c).encode()).hexdigest()[:12]


def crash_text(rc, err):
    if 'overflowed its stack' in err:
        return 'stack overflow'
    if 'memory allocation' in err or 'capacity overflow' in err:
        return 'out of memory'
    return 'signal %d' % -rc if rc < 0 else 'exit %d: %s' % (rc, err[-300:])


def harness_env():
    e = dict(os.environ)
    e['RUST_BACKTRACE'] = '0'
    e['NO_COLOR'] = '1'
    return e


def cargo(ck, args, env, what):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'build.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t = time.time()
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'] + args, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise ToolError('cannot build %s:\n%s' % (what, p.stdout.decode(errors='replace')[-4000:]))
    ck.log('built %s in %.1f s' % (what, time.time() - t))


class Harness:
    """The harness, and with it the crates of /repo's working tree with the hooks on. Should it not
    build as a whole, it is built for one group of runners at a time, with as few hooks as that takes."""

    def __init__(self, ck):
        self.ck, self.whole, self.parts = ck, None, {}
        with open(os.path.join(VERIF, 'harness', 'src', 'main.rs')) as f:
            self.group = dict(re.findall(r'"(\w+)" => (\w+)::', f.read()))
        try:
            self.whole = self.build('harness', '--cfg move_ls_verif', ['--all-features'])
        except ToolError as e:
            ck.log('the harness does not build as a whole: %s' % str(e)[-600:])

    def build(self, what, flags, args, target='target'):
        target = os.path.join(VERIF, 'harness', target)
        env = dict(os.environ, RUSTFLAGS=flags + ' -Awarnings', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target)
        cargo(self.ck, ['--locked', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml')] + args, env, what)
        return os.path.join(target, 'debug', 'mvh')

    def executable(self, runner):
        if self.whole:
            return self.whole
        group = self.group[runner]
        if group not in self.parts:
            try:
                exe = self.build('harness for ' + group, '--cfg move_ls_verif', ['--features', group])
            except ToolError as e:
                if group != 'server':
                    self.parts[group] = e
                    raise
                exe = self.build('harness for ' + group, '--cfg move_ls_verif --cfg move_ls_verif_points', ['--features', group],
                                 'target/points')
            self.parts[group] = shutil.copy(exe, os.path.join(self.ck.work, 'mvh-' + group))
        if isinstance(self.parts[group], ToolError):
            raise self.parts[group]
        return self.parts[group]


def build_server(ck):
    """Builds the server executable from /repo's working tree, without the hooks."""
    target = os.path.join(WORK, 'server-target')
    env = dict(os.environ, RUSTFLAGS='-Awarnings', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target)
    cargo(ck, ['--manifest-path', os.path.join(REPO, 'Cargo.toml'), '-p', 'move_language_server',
               '--bins'], env, 'server')
    return os.path.join(target, 'debug', 'move_language_server')


class TlcResult:
    def __init__(self, name, rc, out, seconds):
        self.name, self.rc, self.out, self.seconds = name, rc, out, seconds
        self.generated = self.distinct = 0
        for m in re.finditer(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out):
            self.generated, self.distinct = (int(x.replace(',', '')) for x in m.groups())
        if not self.generated:
            for m in re.finditer(r'The number of states generated: ([\d,]+)', out):
                self.generated = int(m.group(1).replace(',', ''))
                self.distinct = self.generated

    def json(self):
        """The JSON values printed with PrintT(ToJson(..)), each once per printing."""
        res = []
        for line in self.out.split('\n'):
            if line.startswith('"') and line.endswith('"') and len(line) > 2:
                body = line[1:-1]
                if body[:1] in '{[' or body[:2] == '\\"':
                    body = re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(
                        m.group(1), m.group(1)), body)
                    try:
                        res.append(json.loads(body))
                    except ValueError as e:
                        raise ToolError('cannot read what TLC printed: %s: %r' % (e, line[:300]))
        return res

    def tail(self, n=2500):
        lines = [l for l in self.out.split('\n') if not l.startswith('"')]
        txt = '\n'.join(lines)
        return txt[:1500] + ('\n...\n' + txt[-n:] if len(txt) > 1500 else '')


def main(argv):
    import argparse, importlib, traceback
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('checks.' + a.property.lower())
    ck = Check(a.property, a.tier, a.seed)
    try:
        mod.check(ck)
        return ck.finish()
    except Enough:
        return ck.finish()
    except ToolError as e:
        print('ERROR: %s' % e, flush=True)
        # what was already found stands
        return ck.finish() if ck.violations else 2
    except Exception:
        traceback.print_exc()
        return ck.finish() if ck.violations else 2
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)
