"""P21: discovery finds the right manifests in every directory layout; loading reads them (specs Discovery, ManifestFile)."""
import os
from lib.core import cps_of, WORK

# names that are easily taken for each other, or for the manifest
NAMES = [['a', 'b', 'c', 'd', 'e', 'f', 'g'], ['Dove.toml', 'Dove', 'toml', 'dove.toml', 'x', 'y', 'z'], ['a', 'ab', 'A', '.a', 'a b', 'é', 'a.move'],
         ['src', 'target', '.git', 'tests', 'build', 'node_modules', 'x'], ['.', ' ', '-', '~', '#', '%20', 'x'], ['x' * 100, 'x' * 101, 'y', 'z', 'w', 'v', 'u']]
NEAR = ['dove.toml', 'Dove.toml.bak', 'DOVE.TOML', 'Move.toml', 'Cargo.toml', '.Dove.toml', 'Dove', 'Dove.tom', 'xDove.toml']
GOOD = '[package]\nname = "x"\n'


class Tree:
    """A tree of the specification as entries to make, below a root directory."""

    def __init__(self, rng, parent, has, names, links, depth=0):
        self.parent, self.has = parent, has
        self.make, self.path, self.near = [], {}, {}
        n = len(parent)
        for d in range(1, n + 1):
            name = names[(d - 1) % len(names)] if d <= len(names) else 'd%d' % d
            if name == '.':
                name = '..a'
            up = parent[d - 1]
            if not up:
                # the root of the specification's tree is some way down from the scratch directory
                path = '/'.join('up%d' % k for k in range(depth + 1))
                self.make.append(['dir', path])
            else:
                path = self.path[up] + '/' + name
                if links and rng.random() < .4:
                    self.make.append(['dir', 'store/%d' % d])
                    self.make.append(['link', path, 'store/%d' % d])
                else:
                    self.make.append(['dir', path])
            self.path[d] = path
        children = set(parent)
        for d in range(1, n + 1):
            toml, kind = self.path[d] + '/Dove.toml', has[d - 1]
            if kind == 'file':
                self.make.append(['file', toml, rng.choice([GOOD, '', '[', '\0'])])
            elif kind == 'link':
                self.make.append(['file', 'target%d' % d, GOOD])
                self.make.append(['link', toml, 'target%d' % d])
            elif kind == 'dangling':
                self.make.append(['link', toml, 'nothing'])
            elif kind == 'dir':
                self.make.append(['dir', toml])
            elif kind == 'other':
                near = rng.choice(NEAR)
                if not any(m[1] == self.path[d] + '/' + near for m in self.make):
                    self.make.append(['file', self.path[d] + '/' + near, GOOD])
                    self.near[d] = self.path[d] + '/' + near

    def below_manifest(self, d):
        return d and (self.has[d - 1] in ('file', 'link') or self.below_manifest(self.parent[d - 1]))

    def toml(self, d):
        return self.path[d] + '/Dove.toml'


def clash(tree):
    seen = [m[1] for m in tree.make]
    return len(seen) != len(set(seen))


def check(ck):
    scratch = os.path.join(ck.work, 'dirs')
    os.makedirs(scratch)
    runs = [('Trees4', '{"none","file"}'), ('Trees3', '{"none","file","dir","link","dangling","other"}')]
    runs += [('Trees5', '{"none","file"}'), ('Deep', '{"none","file"}')]
    if ck.thorough:
        runs += [('Trees4', '{"none","file","dir","dangling"}')]
    gen = []
    for trees, has in runs:
        inv = ['Lawful', 'Emit'] + (['Pairs'] if trees in ('Trees4', 'Trees3') and len(has) < 20 else [])
        gen += ck.emitted('DiscoveryGen', label='all placements: %s, %s' % (trees, has), invariants=inv,
                          constants={'Trees': '<- ' + trees, 'Has': has})
    if not ck.thorough and len(gen) > 4000:
        gen = ck.rng.sample(gen, 4000)
    cases, expected, keep = [], [], []
    for n, g in enumerate(gen):
        names = NAMES[n % len(NAMES)] if n % 3 else NAMES[0]
        t = Tree(ck.rng, g['parent'], g['has'], names, links=n % 5 == 4, depth=n % 3)
        if clash(t):
            t = Tree(ck.rng, g['parent'], g['has'], NAMES[0], links=False)
        dirs = list(range(1, len(g['parent']) + 1))
        found = {d: [t.toml(m) for m in g['found'][d - 1]] for d in dirs}
        alls = [ck.rng.sample(dirs, ck.rng.randint(0, len(dirs))) for _ in range(3)] + [dirs]
        one = [t.path[d] for d in dirs]
        one_e = [found[d] for d in dirs]
        single = list(one)
        single_e = [f[0] if len(f) == 1 else None for f in one_e]
        # starting from a manifest, or from another file
        for d in dirs:
            if g['has'][d - 1] in ('file', 'link'):
                one.append(t.toml(d))
                one_e.append([t.toml(d)])
            if d in t.near and t.below_manifest(d):
                one.append(t.near[d])
                one_e.append(found[d])
        all_c = [[t.path[d] for d in a] for a in alls]
        all_e = [sorted({m for d in a for m in found[d]}, key=lambda p: p.split('/')) for a in alls]
        # what cannot be read finds nothing of its own; twice the same finds nothing more
        all_c += [all_c[3] + ['nowhere/at/all'] + all_c[3][::-1], ['nowhere', 'else']]
        all_e += [all_e[3], []]
        cases.append({'base': os.path.join(scratch, '%d' % n), 'make': t.make, 'one': one, 'all': all_c, 'single': single})
        expected.append({'one': one_e, 'all': all_e, 'single': single_e})
    results = ck.run('discover', cases)
    for r in results:
        # the children come in the order of the file system
        if 'ok' in r:
            r['ok']['one'] = [sorted(x) if isinstance(x, list) else x for x in r['ok']['one']]
            r['ok']['all'] = [[y for y in x] for x in r['ok']['all']]
    for e in expected:
        e['one'] = [sorted(x) for x in e['one']]
    ck.compare('directory trees', cases, expected, results)
    ck.sample({'case': cases[len(cases) // 2], 'expected': expected[len(cases) // 2]})

    # large random trees; TLC computes what must be found
    cases, meta = [], []
    for n in range(400 if ck.thorough else 120):
        size = ck.rng.choice([5, 10, 30, 80])
        wide = ck.rng.random() < .5
        parent = [0] + [ck.rng.randint(1, d) if wide else ck.rng.randint(max(1, d - 2), d) for d in range(1, size)]
        p = ck.rng.choice([.02, .1, .4])
        has = [ck.rng.choice(['file', 'link', 'file', 'dir', 'dangling', 'other']) if ck.rng.random() < p else 'none' for _ in parent]
        t = Tree(ck.rng, parent, has, ['d1', 'd2', 'd3'], links=n % 4 == 0, depth=n % 4)
        back = {t.toml(d): d for d in t.path}
        starts = [ck.rng.randint(1, size) for _ in range(10)]
        alls = [[ck.rng.randint(1, size) for _ in range(ck.rng.randint(0, 6))] for _ in range(6)] + [[ck.rng.randint(1, size) for _ in range(60)]]
        cases.append({'base': os.path.join(scratch, 'r%d' % n), 'make': t.make, 'one': [t.path[d] for d in starts],
                      'all': [[t.path[d] for d in a] for a in alls], 'single': []})
        meta.append((parent, has, starts, alls, back))
    records, which = [], []
    for c, (parent, has, starts, alls, back), r in zip(cases, meta, ck.run('discover', cases)):
        if 'ok' not in r or any(not isinstance(x, list) or any(m not in back for m in x) for x in r['ok']['one'] + r['ok']['all']):
            ck.violation('discovery failed: %s' % str(r)[:300], {'part': 'random', 'case': c, 'got': r})
            continue
        if any(x != sorted(x, key=lambda p: p.split('/')) for x in r['ok']['all']):
            ck.violation('the manifests found are not sorted', {'part': 'random', 'case': c, 'got': r})
        records.append({'parent': parent, 'has': has,
                        'one': [{'start': s, 'found': [back[m] for m in x]} for s, x in zip(starts, r['ok']['one'])],
                        'all': [{'starts': s, 'found': [back[m] for m in x]} for s, x in zip(alls, r['ok']['all'])]})
        which.append(c)
    for b in ck.validate('DiscoveryCases', records):
        ck.violation('discovery finds other manifests than specified', {'part': 'random', 'case': which[b['bad'] - 1], 'got': records[b['bad'] - 1]})

    paths_part(ck)
    manifests(ck)


def paths_part(ck):
    """Only what is called Dove.toml is a manifest."""
    paths, expected = [], []
    for d in ['', '/a', '/a/b c', '/Dove.toml', '/é/日']:
        for name in ['Dove.toml'] + NEAR + ['Dove.toml ', 'dove', 'toml', '.toml', 'Dove.toml~', 'é']:
            paths.append(d + '/' + name)
            expected.append([d + '/' + name, d or '/'] if name == 'Dove.toml' else None)
    ck.compare('paths of manifests', [{'paths': paths + ['/']}], [expected + [None]], ck.run('manifest_paths', [{'paths': paths + ['/']}]))


STRINGS = ['x', '', '0x1', 'a b', '1.0', 'é日\U0001f600', '[package]', 'name = "y"', '#', ' ', 'true', '7', "it's", 'x' * 3000, 'a\tb', 'name', 'null']
OTHERS = ['7', 'true', '1.5', '["x"]', '[]', '{ a = "x" }', '1979-05-27', '-1', '{}']


def toml_string(rng, s):
    styles = []
    if '"' not in s and '\t' not in s:
        styles.append('"%s"' % s)
    if "'" not in s and '\t' not in s:
        styles += ["'%s'" % s, "'''%s'''" % s if s else "''"]
    styles.append('"%s"' % ''.join('\\u%04X' % ord(c) if ord(c) < 0x10000 and (ord(c) < 32 or c in '"\\' or rng.random() < .3) else c for c in s))
    if '"' not in s and '\t' not in s:
        styles.append('"""\n%s"""' % s)
    return rng.choice(styles)


def concrete(rng, doc, names):
    """A TOML document for a document of the specification, and the strings given by its items."""
    nl = rng.choice(['\n', '\n', '\r\n', '\n\n', ' # c\n', '  \t\n# [package]\n'])
    out, given = [], {}
    for n, it in enumerate(doc):
        if 't' in it:
            name = names.get(it['t'], it['t'])
            out.append(rng.choice(['[%s]', '[ %s ]', '["%s"]', ' [%s]']) % name)
        else:
            key = names.get(it['k'], it['k'])
            if it['v'] == 'string':
                s = rng.choice(STRINGS)
                given[n + 1] = s
                v = toml_string(rng, s)
            else:
                v = rng.choice(OTHERS)
            out.append(rng.choice(['%s = %s', '%s=%s', '%s  =\t%s', '"%s" = %s', '  %s = %s']) % (key, v))
    return ''.join(x + nl for x in out), given


def manifests(ck):
    runs = [('KeysDef', '{"string","other"}', 3), ('KeysAll', '{"string"}', 3)]
    if ck.thorough:
        runs += [('KeysDef', '{"string","other"}', 4)]
    gen = []
    for keys, kinds, n in runs:
        gen += ck.emitted('ManifestFileGen', label='all manifests of %d items (%s)' % (n, keys), invariants=['Others', 'Order', 'Emit'],
                          constants={'Keys': '<- ' + keys, 'Kinds': kinds, 'Names': '{"package","extra"}', 'MaxItems': str(n)})
    long_ = ck.emitted('ManifestFileGen', label='long random manifests', invariants=['Others', 'Emit'], depth=10,
                       simulate='num=%d' % (400 if ck.thorough else 40),
                       constants={'Keys': '<- KeysAll', 'Kinds': '{"string"}', 'Names': '{"package","extra"}', 'MaxItems': '9'})
    gen += ck.rng.sample(long_, min(len(long_), 3000))
    base = os.path.join(ck.work, 'manifests')
    cases, expected = [], []
    none = {'name': None, 'account_address': None, 'dove_version': None, 'dialect': None}

    def add(text, e):
        data = text if isinstance(text, (bytes, type(None))) else text.encode()
        n = len(cases)
        cases.append({'base': '%s/%d/Dove.toml' % (base, n), 'text': data if data is None else list(data)})
        expected.append(e)
    fields = sorted(none)
    for n, g in enumerate(gen):
        # the fields are alike: any two of them may play their parts
        names = dict(zip(fields, ck.rng.sample(fields, 4)))
        names['extra'] = ck.rng.choice(['extra', 'x', 'Name', 'names', 'authors', 'dependencies', 'account-address', 'version', 'Package'])
        text, given = concrete(ck.rng, g['doc'], names)
        if not g['means']:
            add(text, 'error')
        else:
            add(text, {names[f]: given.get(i) for f, i in g['means'][0].items()})
    for broken in ['', '[package', '[package]\nname = ', '[package]\nname = "x', 'name = "x"', '[package]\nname "x"', '[[package]]\nname = "x"', 'package = 7', 'package = "x"',
                   b'[package]\nname = "\xff"', b'\xff\xfe[package]', None, '{"package": {}}', '[package]\n\0', '[package.name]\n', '[package]\nname = "x"\n[package.name]\n',
                   '[package]\nname = "\n"', '[other]\nname = "x"', '[Package]\nname = "x"', '[package]\nname = "x"\n]']:
        add(broken, 'error')
    add('[package]', none)
    add('package = {}', none)
    add('package = { name = "x", dialect = "y" }', dict(none, name='x', dialect='y'))
    add('package.name = "x"\npackage.dialect = "pont"', dict(none, name='x', dialect='pont'))
    add('[package]\nname = "x"\n[package.extra]\nname = "y"\n[package.extra.deep]\ndialect = "z"', dict(none, name='x'))
    add('[package]\nname = "x"\n' + '# comment\n' * 3000 + 'dialect = "y"\n', dict(none, name='x', dialect='y'))
    add('\n\n[dependencies]\nx = { git = "u", name = "q" }\n[package]\nname = "move_project"\naccount_address = "0x1"\ndove_version = "0.11.0"\ndialect = "pont"',
        {'name': 'move_project', 'account_address': '0x1', 'dove_version': '0.11.0', 'dialect': 'pont'})
    ck.compare('contents of manifests', cases, expected, ck.run('manifest', cases))
    ck.sample({'text': bytes(cases[-1]['text']).decode(), 'expected': expected[-1]})
