#!/usr/bin/env python3
"""mutscan.py MUTANTS.jsonl OUT.jsonl WORKERS [EACH]: which mutants (see mutate) does a thin slice of every check's plan reject?

For developing the framework; no check uses it. Needs a scratch directory SCAN (default /tmp/scan).
"""
import contextlib, io, json, os, queue, shutil, subprocess, sys, tempfile, threading, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
SCAN = os.environ.get('SCAN', '/tmp/scan')
os.makedirs(SCAN, exist_ok=True)
import check  # noqa: E402
from plans import PLANS  # noqa: E402


def plan(each, file=''):
    only = ('lazyset',) if file.startswith('lazy/') else ('rel',) if file.startswith('pkg/rel') else ('ints',) if 'intset' in file or file == 'bititer.go' else None
    seen, groups = set(), []
    for p in sorted(PLANS):
        for g in PLANS[p]['groups']:
            k = (g['name'], g['bin'], tuple(g['args']))
            if k in seen or '+' in g['bin'] or not g['quick']:
                continue
            if only and g['bin'] not in only:
                continue
            seen.add(k)
            groups.append((p, dict(g, quick=min(g['quick'], each))))
    groups.sort(key=lambda pg: ('gen' not in pg[1], pg[1]['bin'] != 'store'))
    return groups


class Scan(check.Check):
    def __init__(self, repo, groups, seed):
        PLANS['SCAN'] = dict(groups=[g for _, g in groups])
        super().__init__('SCAN', 'quick', seed)
        self.repo = repo

    def save(self, g, seed, trace, cmd, at):
        with open(trace) as f:
            lines = f.readlines()
        return dict(module=g['mod'], group=g['name'], rejected_event=lines[at - 1][:300] if at <= len(lines) else 'end', path='')

    def report(self, v):
        pass

    def generate(self, gens):
        for g in gens:
            for k in ('gen', 'gen2'):
                if k in g:
                    n = 'gen-%s.jsonl' % check.gen_key(g[k])
                    os.symlink(os.path.join(SCAN, n), os.path.join(self.work, n)) if not os.path.exists(os.path.join(self.work, n)) else None

    def findings(self):
        pass

    def evidence(self):
        pass

    def run(self):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) as err:
            rc = super().run()
        return rc, [v for v in self.violations if v], err.getvalue()[:500]


def one(m, groups, seed):
    d = tempfile.mkdtemp(dir=SCAN, prefix='repo-')
    try:
        shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        p = os.path.join(d, 'r', m['file'])
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:m['lo']] + m['repl'].encode() + b[m['hi']:])
        t = time.time()
        r = subprocess.run([sys.executable, __file__, '--one', d + '/r', str(seed), str(groups), m['file']], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d + '/r', TMPDIR=d))
        try:
            out = json.loads(r.stdout.splitlines()[-1])
        except (IndexError, ValueError):
            out = dict(rc=9, err=(r.stdout + r.stderr)[-800:])
        return dict(out, s=round(time.time() - t))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == '--one':
        groups = plan(int(sys.argv[4]), sys.argv[5])
        rc, vs, err = Scan(sys.argv[2], groups, int(sys.argv[3])).run()
        props = sorted({p for p, g in groups if vs and g['name'] == vs[0]['group']})
        print(json.dumps(dict(rc=rc, err=err, group=vs[0]['group'] if vs else '', event=vs[0]['rejected_event'] if vs else '', props=props)))
        return
    each = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    # behaviours are generated once
    c = check.Check('C01', 'quick', 1)
    c.work = SCAN
    need = [dict(g, **{k: g[k]}) for _, g in plan(each) for k in ('gen', 'gen2') if k in g and not os.path.exists(os.path.join(SCAN, 'gen-%s.jsonl' % check.gen_key(g[k])))]
    if need:
        c.generate(need)
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)['n'] for l in open(sys.argv[2])}
    q = queue.Queue()
    for l in open(sys.argv[1]):
        m = json.loads(l)
        if m.get('st') in (None, 'survived') and m['n'] not in done:
            q.put(m)
    lock = threading.Lock()

    def worker():
        while not os.path.exists(SCAN + '/stop'):
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            r = one(m, each, 1)
            with lock, open(sys.argv[2], 'a') as f:
                f.write(json.dumps(dict(m, **r)) + '\n')
    ts = [threading.Thread(target=worker) for _ in range(int(sys.argv[3]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
