"""The editor extension under a stand-in for the editor (editor/drive.js)."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib.core import NPROC, REPO, ToolError, VERIF

SOURCE = os.path.join(REPO, 'editors', 'code', 'src', 'extension.ts')


def drive(ck, cases, limit=400):
    """Takes the extension through the cases; one result per case: what drive.js says, or {"error": why}."""
    n = max(1, min(250, (len(cases) + NPROC - 1) // NPROC))
    parts = [cases[i:i + n] for i in range(0, len(cases), n)]

    def work(item):
        k, part = item
        base = os.path.join(ck.work, 'drive-%d-%d' % (k, random.randrange(1 << 30)))
        with open(base + '.in', 'w') as f:
            f.writelines(json.dumps(c) + '\n' for c in part)
        try:
            p = subprocess.run(['node', '--max-old-space-size=2048', os.path.join(VERIF, 'editor', 'drive.js'), SOURCE, base + '.in', base + '.out'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit,
                               env=dict(os.environ, VP_SCRATCH=ck.work))
            code, said = p.returncode, p.stdout.decode(errors='replace')[-2000:]
        except subprocess.TimeoutExpired:
            code, said = 'none', 'does not come to an end'
        out = []
        if os.path.exists(base + '.out'):
            with open(base + '.out') as f:
                out = [json.loads(x) for x in f if x.endswith('\n')]
            os.unlink(base + '.out')
        elif code != 0:
            raise ToolError('cannot drive the extension: ' + said)
        os.unlink(base + '.in')
        return out + [{'error': 'ended with %s: %s' % (code, said)}] * (len(part) - len(out))

    with ThreadPoolExecutor(NPROC) as ex:
        return [r for rs in ex.map(work, enumerate(parts)) for r in rs]
