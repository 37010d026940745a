"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + '/tools/caught.json'))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    name = os.path.basename(os.path.dirname(m))
    meta = json.load(open(m))
    c = caught.get(name)
    rows.append('| %s | %s | %s | %s |' % (name, meta['property'], ' '.join(meta['needs'].split()).replace('|', '\\|'),
                                        'not tried' if c is None else 'caught' if c['caught'] else '**missed**'))
d = open(root + '/DESIGN.md').read()
a, b = d.index('<!-- seeds -->'), d.index('<!-- /seeds -->')
d = d[:a] + '<!-- seeds -->\n| id | check | needs | verdict |\n|---|---|---|---|\n' + '\n'.join(sorted(rows, key=lambda r: r.split('|')[2])) + '\n' + d[b:]
open(root + '/DESIGN.md', 'w').write(d)
print(len(rows), 'seeds;', sum('missed' in r or 'not tried' in r for r in rows), 'not caught')
