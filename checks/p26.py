"""P26: a tool is run only when it is complete (specs Install, Download, InstallTrace)."""
from lib.core import ToolError
from lib.ed import drive

LABELS = {'linux': ['linux', 'linux-x86_64', 'linux.tar'], 'darwin': ['darwin', 'darwin-x86_64'], 'win32': ['win', 'win64.exe', 'windows-x86_64.exe']}
ELSE = ['checksums.txt', 'source.zip', 'move-executor-linux', 'move-executor-win', 'predove-linux-x86_64', 'predove-win64.exe', 'my-move-language-server-darwin', 'old-move-language-server-linux']


def case(rng, hist):
    """A behaviour of the specification with what it leaves open chosen."""
    platform = rng.choice(['linux'] * 3 + ['darwin', 'win32', 'win32'])
    assets, version = [], rng.choice(['-1.2.2', ''])
    for tool in ['dove', 'move-language-server']:
        for p in LABELS:
            assets.append('%s%s-%s' % (tool, version, rng.choice(LABELS[p])))
    assets += rng.sample(ELSE, rng.randint(0, 4))
    rng.shuffle(assets)
    steps = []
    for e in hist[1:]:
        e = dict(e)
        if e['do'] == 'fail':
            e['how'] = rng.choice(['404', '500', '403', 'ECONNRESET', 'ETXTBSY', 'rename', 'rename'])
        if e['do'] == 'choose' and e['c'] == 'dismiss':
            e['c'] = rng.choice(['dismiss', 'close'])
        if e['do'] == 'type' and e['v'] == 't1':
            e['v'] = 't%d' % rng.randint(1, 9)
        steps.append(e)
    own = lambda n: rng.choice(['/opt/%s' % n, '~/bin/%s' % n, '~%s' % n, n])
    return {'kind': 'install', 'platform': platform, 'assets': assets, 'pieces': [rng.randint(1, 9000) for _ in range(2)], 'there': hist[0]['there'], 'fresh': rng.random() < .4,
            'paths': {'1': own('ls'), '2': own('dv')}, 'broken': [w for w in (1, 2, 3) if rng.random() < .12], 'brokenHow': rng.choice(['status', 'probe', 'cannot', 'signal']), 'later': [w for w in (1, 2, 3) if rng.random() < .4], 'token': rng.choice(['', '', 't0']), 'steps': steps}


def check(ck):
    base = {'Windows': '{1, 2}', 'Tools': '{1, 2}', 'Pieces': '2', 'MaxTrouble': '2' if ck.thorough else '1', 'OwnName': 'TRUE', 'Steps': '1', 'Owns': '<- OwnsFew', 'Log': 'FALSE'}
    ck.model('DownloadGen', spec='GSpec', label='getting the tools keeps to the property', heap='8g', timeout=3000, constants=base, invariants=['Sound', 'Done'],
             properties=['Kept'], constraint='Small')
    r = ck.tlc('DownloadGen', spec='GSpec', constants=dict(base, OwnName='FALSE'), invariants=['Sound', 'Done'], constraint='Small')
    if r.rc == 0:
        raise ToolError('the specification does not tell windows that share a file')
    hists = []
    for windows, trouble, steps, mode in [(1, 1, 9 if ck.thorough else 7, None), (1, 4, 26, 120), (2, 4, 44, 300), (3, 5, 60, 150)]:
        kw = dict(simulate='num=%d' % (mode * (6 if ck.thorough else 1)), depth=steps + 10) if mode else {}
        hists += ck.emitted('DownloadGen', spec='GSpec', label='behaviours of %d windows' % windows, timeout=3000, invariants=['Emit'],
                            constants=dict(base, Windows='{%s}' % ', '.join(map(str, range(1, windows + 1))), MaxTrouble=str(trouble), Steps=str(steps),
                                           Owns='<- OwnsDef', Log='TRUE'), **kw)
    most = 30000 if ck.thorough else 5000
    cases = [case(ck.rng, h) for h in (hists if len(hists) <= most else ck.rng.sample(hists, most))]
    traces, which = [], []
    for c, r in zip(cases, drive(ck, cases)):
        if 'trace' not in r or r['pending']:
            ck.violation('the extension failed: %s' % str(r)[:600], {'part': 'histories', 'case': c, 'got': r})
        else:
            traces.append(r['trace'])
            which.append((c, r))
    ck.sample({'case': which[len(which) // 2][0], 'trace': which[len(which) // 2][1]['trace']} if which else 'none')
    for ev in ('tool', 'fails', 'kill', 'start'):
        ck.extra['events_' + ev] = sum(e['ev'] == ev for t in traces for e in t)
    for i, line in ck.validate_traces('InstallTrace', traces, spec='TSpec', label='judge the extension', constants={'Windows': '{1, 2, 3}', 'Tools': '{1, 2}'},
                                      invariants=['Accept'], timeout=3000):
        ck.violation('event %s: %s is not what the property allows' % (line, traces[i][(line or 1) - 1]), {'part': 'histories', 'case': which[i][0], 'got': which[i][1]})
