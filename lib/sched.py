"""Schedules of the specification Server as runs of the real event loop, and what the editor saw of them."""
from lib.core import canon, cps_of
from lib.lsp import *

# texts with pairwise different diagnostics, and texts without any
BROKEN = ['script {', '\nscript {', '\r\n\r\nscript { fun', 'module {}', 'script { fun main( { } }', '}',
          'module M { struct }', '   fun main() {}', '\n\n\n}', 'script { fun f() { let ; } }',
          '/* \U0001f600 */ script { fun f() { let } }', 'module M { fun f() { (1 + } }\n' * 3,
          'address 0x1 { module M { struct S<T { x: u8 } } }\nscript', '\n\n"\u00e9" \u65e5\n}', 'script { fun a() { 1 } } ' * 40 + '{',
          '\t\n\tscript { \u00e9', '\n\tx"zz"', '\n' * 30 + 'module']
CLEAN = ['', 'script { fun main() {} }', 'module M { struct S { x: u8 } }\n', '// \U0001f600\r\n', '\n\n']


def utf16(s):
    return len(s.encode('utf-16-le')) // 2


def pos(s, i, utf8=False):
    """Line and column of index i of s."""
    start = s.rfind('\n', 0, i) + 1
    return s.count('\n', 0, i), len(s[start:i].encode()) if utf8 else utf16(s[start:i])


def diff_edit(old, new, utf8=False):
    """One ranged change that turns old into new."""
    n = 0
    while n < min(len(old), len(new)) and old[n] == new[n]:
        n += 1
    m = 0
    while m < min(len(old), len(new)) - n and old[-1 - m] == new[-1 - m]:
        m += 1
    # a line end is one thing: no position between its two characters
    while n and old[n - 1] == '\r':
        n -= 1
    while m and old[-m] == '\n' and '\r' in (old[-m - 1:-m], new[-m - 1:-m]):
        m -= 1
    return edit(*pos(old, n, utf8), *pos(old, len(old) - m, utf8), new[n:len(new) - m])


def kin(rng, t):
    """Texts that are hard to tell from t: other line ends, other white space or comments, the same length."""
    lf = t.replace('\r\n', '\n')
    if '\n' not in lf:
        lf += rng.choice(['\n', '\n// c\n', '\n\n'])
    res = [t, lf, lf.replace('\n', '\r\n'), lf + ' ', lf + '\n', '\n' + lf, ' ' + lf, lf + '// c', lf + '// d', lf + '// c\n']
    if lf.strip():
        k = rng.choice([i for i, c in enumerate(lf) if not c.isspace()])
        res += [lf[:k] + c + lf[k + 1:] for c in '{x ']
    return sorted(set(res))


def pool(rng, n, m):
    """n texts with diagnostics and m without, as a rule; sometimes they are much alike."""
    if rng.random() < .4:
        res = kin(rng, rng.choice(BROKEN + CLEAN))
        while len(res) < n + m:
            res += kin(rng, rng.choice(BROKEN))
        return rng.sample(res, n + m)
    return rng.sample(BROKEN, n) + rng.sample(CLEAN, m)


class Texts:
    """The oracle: what should be shown of each text, from a fresh analysis of the text alone."""

    def __init__(self, ck):
        self.ck, self.known = ck, {}

    def learn(self, texts, utf8=False):
        new = sorted({t for t in texts if (t, utf8) not in self.known})
        for t, r in zip(new, self.ck.run('diags', [{'s': cps_of(t), 'utf8': utf8} for t in new])):
            self.known[t, utf8] = r.get('ok')
            if 'ok' not in r:
                self.ck.violation('no diagnostics for %r: %s' % (t[:200], r), {'part': 'diagnostics', 'case': t, 'got': r})

    def shown_by(self, publication, texts, utf8=False):
        key = canon(diag_key(publication['diagnostics']))
        return [t for t in texts if self.known.get((t, utf8)) is not None and canon(self.known[t, utf8]) == key]


class History:
    """What the editor sends, being built."""

    def __init__(self, rng, utf8=False, docs=None):
        self.rng, self.utf8 = rng, utf8
        self.steps, self.events = [], []     # events[i]: those of step i
        self.text, self.open, self.all = {}, set(), set()
        self.docs = docs or uri
        self.freed = False                   # once the threads run as they like there is no way back

    def _step(self, step, events=()):
        self.steps.append(step)
        self.events.append(list(events))

    def _event(self, ev, d, v=0, t=None):
        if t is not None:
            self.all.add(t)
        return {'ev': ev, 'd': d, 'v': v, 't': t, 'ts': [], 'strict': True}

    def m_open(self, d, v, t):
        self.open.add(d)
        self.text[d] = t
        return did_open(self.docs(d), v, t), self._event('open', d, v, t)

    def m_change(self, d, v, t, how=None):
        old = self.text.get(d)
        if d in self.open:
            how = self.rng.randrange(3) if how is None else how
            if how == 0:
                changes = [full(t)]
            elif how == 1:
                changes = [diff_edit(old, t, self.utf8)] if old != t else []
            else:
                mid = self.rng.choice(BROKEN + CLEAN)
                changes = [diff_edit(old, mid, self.utf8), diff_edit(mid, t, self.utf8)] if self.rng.random() < .7 else [full(mid), diff_edit(mid, t, self.utf8)]
            self.text[d] = t
        else:
            changes = [full(t)]
        return did_change(self.docs(d), v, changes), self._event('change', d, v, t)

    def m_close(self, d):
        self.open.discard(d)
        return did_close(self.docs(d)), self._event('close', d)

    def send(self, *pairs):
        if self.freed:
            return self.free([0] * len(pairs), *pairs)
        self._step({'do': 'send', 'msgs': [p[0] for p in pairs]}, [p[1] for p in pairs if p[1]])

    def free(self, delays, *pairs):
        self.freed = True
        self._step({'do': 'free', 'msgs': [p[0] for p in pairs], 'delays': delays}, [p[1] for p in pairs if p[1]])

    def run(self, k, n=1):
        assert not self.freed
        self._step({'do': 'run', 'task': k, 'files': n})

    def deliver(self, ks):
        assert not self.freed
        self._step({'do': 'deliver', 'tasks': ks})

    def settle(self):
        if self.freed:
            return      # a free step waits until everything is done
        self._step({'do': 'settle'})

    def case(self):
        caps = {'offsetEncoding': ['utf-8']} if self.utf8 else {}
        return {'caps': caps, 'steps': self.steps}

    def trace(self, result, texts):
        """The events in the order in which the server took them, for ClientViewTrace.
        Returns the trace and what the editor could complain about at once."""
        names = {self.docs(d): d for d in self.text}
        out, complaint = [], None
        by_step = {}
        for t in result['turns']:
            by_step.setdefault(t['step'], []).append(t)
        stuck = result['stuck']
        for n, events in enumerate([[]] + self.events):
            turns = by_step.get(n, [])
            step = self.steps[n - 1] if n else None
            exact = step is None or step['do'] != 'free'
            one_each = exact and step and step['do'] == 'send' and len(turns) == len(step['msgs'])
            if not one_each:
                out += events
            waiting = list(events)
            for k, turn in enumerate(turns):
                if one_each and waiting and len(events) == len(step['msgs']):
                    out.append(waiting.pop(0))
                elif one_each and waiting and k == 0:
                    out += waiting
                    waiting = []
                for p in publications(turn):
                    d = names.get(p['uri'])
                    if d is None:
                        complaint = 'a publication for %s, which the editor did not name' % p['uri']
                        continue
                    v = p.get('version')
                    out.append({'ev': 'pub', 'd': d, 'v': [] if v is None else [v], 't': None,
                                'ts': texts.shown_by(p, sorted(self.all), self.utf8), 'strict': exact})
                if turn['ended'] and complaint is None:
                    complaint = 'the server ended: %s' % result['end']
            if step and step['do'] in ('settle', 'free') and not (stuck and stuck['step'] <= n):
                out.append({'ev': 'quiet', 'd': '-', 'v': 0, 't': None, 'ts': [], 'strict': True})
        # texts by short names, '-' for none
        short = {s: '#%d' % k if len(s) > 60 else '=' + s for k, s in enumerate(sorted(self.all))}
        short[None] = '-'
        for ev in out:
            ev['t'], ev['ts'] = short[ev['t']], [short[s] for s in ev['ts']]
        return out, complaint


def judge(ck, prop, histories, label, timeout=90.0):
    """Runs the histories on the real server and lets TLC judge what the editor saw."""
    texts = Texts(ck)
    for u in (False, True):
        texts.learn([t for h in histories if h.utf8 == u for t in h.all], u)
    results = ck.run('server', [h.case() for h in histories], timeout=timeout)
    traces, which = [], []
    for h, r in zip(histories, results):
        case = {'part': label, 'case': h.case()}
        if 'ok' not in r:
            ck.violation('%s: the server failed: %s' % (label, r), dict(case, got=r))
            continue
        r = r['ok']
        trace, complaint = h.trace(r, texts)
        if prop == 'P02':
            # a server that stops is the matter of P01; what it published before counts
            pass
        elif r['stuck'] or complaint or r['panics']:
            ck.violation('%s: %s' % (label, r['stuck'] or complaint or r['panics']), dict(case, got=trace, panics=r['panics']))
            continue
        traces.append(trace)
        which.append((h, r))
    docs = sorted({d for h in histories for d in h.text}) or ['a']
    rejected = ck.validate_traces('ClientViewTrace', traces, spec='TSpec', label='judge ' + label,
                                  constants={'Docs': '{%s}' % ', '.join('"%s"' % d for d in docs), 'Property': '"%s"' % prop},
                                  invariants=['Accept'])
    for i, _ in rejected:
        h, r = which[i]
        ck.violation('%s: the editor is shown wrong diagnostics' % label if prop == 'P01' else
                     '%s: a publication does not describe the text of its version' % label,
                     {'part': label, 'case': h.case(), 'got': traces[i]})
    return which


def from_spec(rng, hist, utf8=False, settle=True):
    """A behaviour of ServerGen as a history, with texts of the same kind."""
    symbol = dict(zip('pqrce', pool(rng, 3, 2)))
    h = History(rng, utf8)
    base = {}
    v = {}
    for s in hist:
        if s['do'] in ('open', 'change'):
            d = s['d']
            if s['do'] == 'open' and rng.random() < .3:
                base[d] = rng.choice([0, 1, 100, -5])     # versions may start anywhere
                v[d] = base[d]
            v[d] = v.get(d, 0) + rng.choice([1, 1, 1, 7])
            h.send(getattr(h, 'm_' + s['do'])(d, v[d], symbol[s['t']]))
        elif s['do'] == 'close':
            h.send(h.m_close(s['d']))
        elif s['do'] == 'run':
            h.run(s['k'] - 1)
        else:
            h.deliver([k - 1 for k in s['ks']])
    if settle:
        h.settle()
    return h
