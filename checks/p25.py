"""P25: one language server per project that is looked at (specs Editor, Extension, EditorTrace)."""
from lib.core import ToolError
from lib.ed import drive

FOLDERS = '{0, 1, 2}'


def manifest(rng, f, n):
    """The manifest that the specification calls n."""
    if n < 1:
        # a manifest is bad in many ways
        return {'state': 'bad', 'how': rng.choice(['says', 'says', 'part', 'junk', 'cannot'])} if n == 0 else {'state': 'none'}
    p = lambda: rng.choice(['/deps/%d', '/deps/%d', '/home/j\u00fcrgen/\u65e5 %d']) % rng.randint(0, 30)
    return {'state': 'ok', 'dialect': rng.choice(['pont', 'diem', 'dfinance']), 'account': '0x%d' % rng.randint(1, 9), 'locals': [p() for _ in range(rng.randint(0, 3))],
            'gits': [[p() for _ in range(rng.randint(0, 2))] for _ in range(rng.randint(0, 3))], 'modules': '/p/%d/modules%d' % (f, n)}


def case(rng, hist, folders):
    """A behaviour of the specification with what it leaves open chosen, and what must not matter put in."""
    begin, versions = hist[0], {}
    get = lambda f, n: versions.setdefault((f, n), manifest(rng, f, n))
    doc = lambda: rng.choice(['move', 'move', 'deep', 'manifest'])
    away = lambda: rng.choice([{'do': 'show', 'f': -1}, {'do': 'show', 'f': rng.randrange(folders), 'doc': rng.choice(['text', 'diff'])},
                               {'do': 'show', 'f': 0, 'doc': rng.choice(['outside', 'untitled'])}])
    states = [get(f, n) for f, n in ((int(f), n) for f, n in sorted(begin['manifests'].items()))]
    steps = []
    for e in hist[1:]:
        e = dict(e)
        if e['do'] == 'show':
            e = away() if e['f'] < 0 else dict(e, doc=doc())
        elif e['do'] == 'write':
            e['m'] = get(e['f'], e['m'])
            e['more'] = rng.random() < .3
        steps.append(e)
        if rng.random() < .04:
            steps.append(rng.choice([{'do': 'other'}, {'do': 'saved', 'f': rng.randrange(folders), 'doc': 'text'}]))
    act = begin['active']
    return {'manifests': states, 'active': {'f': act[0], 'doc': doc()} if act else rng.choice([None, {'f': 0, 'doc': 'text'}]), 'exe': 1, 'steps': steps,
            'stuck': rng.choice([[], [], [], [rng.randrange(3)], [0, 1, 2]])}


def check(ck):
    base = {'Folders': '{0, 1}', 'MaxTasks': '4', 'Guarded': 'TRUE', 'Steps': '1', 'Starts': '<- StartsDef', 'Names': '<- ManifestsDef', 'Log': 'FALSE'}
    ck.model('ExtensionGen', spec='GSpec', label='the extension keeps to the property', heap='8g', timeout=3000,
             constants=base if ck.thorough else dict(base, Starts='<- StartsFew', Names='<- ManifestsFew'), invariants=['One', 'Quiet'])
    r = ck.tlc('ExtensionGen', spec='GSpec', constants=dict(base, Starts='<- StartsFew', Names='<- ManifestsFew', Guarded='FALSE'), invariants=['One', 'Quiet'])
    if r.rc == 0:
        raise ToolError('the specification does not tell the defect that was fixed')
    hists = []
    for folders, tasks, names, starts, steps, mode in [
            (1, 3, 'ManifestsFew', 'StartsFew', 7 if ck.thorough else 6, None), (2, 9, 'ManifestsDef', 'StartsDef', 30, 400), (3, 12, 'ManifestsDef', 'StartsDef', 45, 400)]:
        kw = dict(simulate='num=%d' % (mode * (6 if ck.thorough else 1)), depth=steps + 15) if mode else {}
        hists += [(h, folders) for h in ck.emitted(
            'ExtensionGen', spec='GSpec', label='behaviours with %d folders' % folders,
            constants=dict(base, Folders='{%s}' % ', '.join(map(str, range(folders))), MaxTasks=str(tasks), Steps=str(steps), Starts='<- ' + starts, Names='<- ' + names, Log='TRUE'),
            invariants=['Emit'], timeout=3000, **kw)]
    cases = [case(ck.rng, h, n) for h, n in hists]
    traces, which = [], []
    for c, r in zip(cases, drive(ck, cases)):
        if 'trace' not in r or r['pending']:
            ck.violation('the extension failed: %s' % str(r)[:600], {'part': 'histories', 'case': c, 'got': r})
        else:
            traces.append(r['trace'])
            which.append((c, r))
    ck.sample({'case': which[len(which) // 2][0], 'trace': which[len(which) // 2][1]['trace']} if which else 'none')
    ck.extra['servers_started'] = sum(e['ev'] == 'start' for t in traces for e in t)
    ck.extra['activations'] = sum(e['ev'] in ('begin', 'reload') for t in traces for e in t)
    for i, line in ck.validate_traces('EditorTrace', traces, spec='TSpec', label='judge the extension', constants={'Folders': FOLDERS}, invariants=['Accept'], timeout=3000):
        ck.violation('event %s: %s is not what the property allows' % (line, traces[i][(line or 1) - 1]), {'part': 'histories', 'case': which[i][0], 'got': which[i][1]})
