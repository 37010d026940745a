"""P15: programs of the supported language parse to the intended tree (spec Grammar)."""
from lib.core import ToolError, canon, cps_of
from lib.moves import relayout

SIMPLE = '"call","dot","literal","address","paren","unit","block","record","qualified"'
# goal, size, operators, what is left out, names, size when thorough
SMALL = [
    ('Expr', 7, 'AllOps', '{%s}' % SIMPLE, '{"a"}', 7),
    ('Expr', 9, 'OnePerLevel', '{"prefix",%s}' % SIMPLE, '{"a"}', 11),
    ('Expr', 6, 'FewOps', '{"let","literal","address","qualified","record"}', '{"a"}', 7),
    ('Expr', 6, 'FewOps', '{"let","literal","address","paren","unit","block","call"}', '{"a"}', 8),
    ('Expr', 3, 'AllOps', '{}', '{"a","b"}', 4),
    ('Let', 8, 'FewOps', '{"prefix","literal","address","paren","unit","block","record","call","dot","recordpat","tuple"}', '{"a"}', 10),
    ('Pattern', 9, 'FewOps', '{}', '{"a"}', 13),
    ('Stmts', 6, 'FewOps', '{"prefix","literal","address","paren","unit","record","call","dot","recordpat","tuple"}', '{"a"}', 8),
    ('Struct', 12, 'FewOps', '{}', '{"a"}', 15),
    ('Fun', 13, 'FewOps', '{"prefix","literal","address","paren","unit","block","record","call","dot","recordpat","tuple"}', '{"a"}', 16),
    ('Items', 12, 'FewOps', '{%s,"prefix","let","recordpat","tuple"}' % SIMPLE, '{"a"}', 16),
    ('Tops', 11, 'FewOps', '{%s,"prefix","let","recordpat","tuple"}' % SIMPLE, '{"a"}', 14),
]
# goal, size, operators, number of random derivations for each worker
LARGE = [('Expr', 40, 'AllOps', 150), ('Expr', 15, 'AllOps', 200), ('Stmts', 60, 'AllOps', 100), ('Pattern', 30, 'AllOps', 60), ('Struct', 40, 'AllOps', 60),
         ('Items', 80, 'AllOps', 60), ('Tops', 120, 'AllOps', 60)]


def tokens(tree):
    return [e[2] for e in tree if e[0] == 'l']


def unambiguous(trees):
    seen = {}
    for t in trees:
        if seen.setdefault(tuple(tokens(t)), canon(t)) != canon(t):
            raise ToolError('the grammar is ambiguous: %s' % ' '.join(tokens(t)))


def programs(ck, small=SMALL, large=LARGE, factor=8):
    for goal, size, ops, without, names, deep in small:
        yield 'all programs: %s, %d tokens' % (goal, deep if ck.thorough else size), ck.emitted(
            'GrammarGen', label='derivations: %s' % goal, invariants=['Emit', 'Balanced'],
            constants={'Size': str(deep if ck.thorough else size), 'Goal': '"%s"' % goal, 'Names': names, 'Ops': '<- ' + ops, 'Without': without})
    for goal, size, ops, num in large:
        yield 'random programs: %s, %d tokens' % (goal, size), ck.emitted(
            'GrammarGen', label='random derivations: %s' % goal, invariants=['Emit'], simulate='num=%d' % (num * factor if ck.thorough else num), depth=20 * size,
            constants={'Size': str(size), 'Goal': '"%s"' % goal, 'Names': '{"a","B","_c","x1","fun_","mutable","u8","x","b"}', 'Ops': '<- ' + ops, 'Without': '{}'})


def check(ck):
    seen = set()
    for label, gen in programs(ck):
        trees = [g['tree'] for g in gen]
        unambiguous(trees)
        texts = [' '.join(tokens(t)) for t in trees]
        if not label.startswith('all'):
            texts = [relayout(ck.rng, tokens(t)) if ck.rng.random() < .5 else s for t, s in zip(trees, texts)]
        seen.update(e[1] for t in trees for e in t)
        cases = [{'s': cps_of(s)} for s in texts]
        ck.compare(label, cases, [{'tree': t, 'errors': []} for t in trees], ck.run('skeleton', cases), lambda c, e, r: describe(c, e, r))
        ck.sample({'program': texts[len(texts) // 2]})
    ck.extra['kinds_of_nodes_and_tokens'] = len(seen)


def describe(c, e, r):
    s = ''.join(map(chr, c['s']))
    if 'ok' in r and not r['ok']['errors']:
        return 'the tree of %r is not the intended one' % s[:300]
    return 'the program %r is not accepted: %s' % (s[:300], str(r.get('ok', {}).get('errors', r))[:200])
