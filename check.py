#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of arr-ai/frozen.

Builds the drivers in harness/ against the working tree of /repo, records what
the real code does, and has TLC decide whether each recorded history is a
behaviour of the specification in spec/.  Also model-checks the specification
itself and replays behaviours that TLC generates from it.  See DESIGN.md.

VERIF_TIER (quick, thorough), VERIF_SEED and VERIF_REPO are honoured.
check.py --replay FILE validates a saved trace again.
"""
import collections, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plans import PLANS, TITLES, FINDINGS  # noqa: E402

TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GO = '/opt/veriftools/go1.27.3/bin'
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_JOBS', '8'))
RSS_LIMIT = 6 << 30


class CheckError(Exception):
    """The check could not be carried out (no verdict)."""


def run_limited(cmd, env=None, cwd=None, timeout=600, rss=RSS_LIMIT, out=None):
    """Run cmd; returns (rc, stdout, stderr, why) with why in '', 'timeout', 'memory'."""
    so = open(out, 'wb') if out else tempfile.TemporaryFile()
    se = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, start_new_session=True)
    why, t0 = '', time.time()
    page = os.sysconf('SC_PAGE_SIZE')
    while p.poll() is None:
        try:
            p.wait(0.1)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            with open('/proc/%d/statm' % p.pid) as f:
                if int(f.read().split()[1]) * page > rss:
                    why = 'memory'
        except (OSError, IndexError, ValueError):
            pass
        if time.time() - t0 > timeout:
            why = 'timeout'
        if why:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    se.seek(0)
    err = se.read()[-200000:].decode('utf8', 'replace')
    se.close()
    txt = ''
    if not out:
        so.seek(0)
        txt = so.read().decode('utf8', 'replace')
    so.close()
    return p.returncode, txt, err, why


def go_env():
    e = dict(os.environ)
    e['PATH'] = GO + ':' + e.get('PATH', '')
    e.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOPATH='/root/go',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'), CGO_ENABLED='1')
    for k in ('FROZEN_CONCURRENCY', 'GODEBUG', 'GOGC', 'GOMAXPROCS', 'GOMEMLIMIT'):
        e.pop(k, None)
    return e


def build(work, bins):
    """Build the drivers named in bins ('store', 'store+race', ...) against REPO."""
    src = os.path.join(work, 'harness')
    shutil.copytree(os.path.join(HERE, 'harness'), src)
    mod = os.path.join(src, 'go.mod')
    with open(mod) as f:
        s = f.read()
    with open(mod, 'w') as f:
        f.write(re.sub(r'(replace github.com/arr-ai/frozen =>).*', r'\1 ' + REPO, s))
    paths = {}

    def one(b):
        name, _, how = b.partition('+')
        exe = os.path.join(work, b)
        cmd = ['go', 'build', '-gcflags=-l', '-o', exe] + {'': [], 'race': ['-race'], 'b4': ['-tags', 'branch4']}[how] + ['./' + name]
        rc, _, err, why = run_limited(cmd, env=go_env(), cwd=src, timeout=600, rss=20 << 30)
        if rc != 0 or why:
            raise CheckError('cannot build driver %s (%s): %s' % (b, why or rc, err[-3000:]))
        paths[b] = exe
    # one at a time: they share most of their compilation
    for b in sorted(set(bins)):
        one(b)
    return paths


def tlc(work, module, cfg, env=None, workers=1, timeout=600, extra=(), mem='2g'):
    meta = tempfile.mkdtemp(dir=work, prefix='tlc-')
    e = dict(os.environ)
    e.update(SHOW='0')
    e.update(env or {})
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    cmd = ['java', gc, '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', TLA, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
           '-config', cfg + '.cfg' if not cfg.startswith('/') else cfg] + list(extra) + [module + '.tla']
    rc, out, err, why = run_limited(cmd, env=e, cwd=os.path.join(HERE, 'spec'), timeout=timeout, rss=12 << 30)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated[^\n]*?(\d+) distinct states found', out.replace(',', ''))
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=rc, out=out, err=err, why=why, ok='No error has been found' in out and rc == 0, generated=gen, distinct=dist)


def gen_key(gen):
    return re.sub(r'[^\w-]', '', gen['module'] + ''.join('-%s%s' % kv for kv in gen['constants']))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLANS[prop]
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.stop = False
        self.violations = []
        self.errors = []
        self.n = collections.Counter()
        self.ops = collections.Counter()
        self.worlds = collections.Counter()
        self.samples = []
        self.models = []
        self.groups = collections.Counter()
        self.known = []

    # ---------------------------------------------------------------- traces
    def drive(self, g, seed, trace, sync=False, extra=()):
        env = go_env()
        env.update(g.get('env', {}))
        env['GOTRACEBACK'] = 'all'
        if g['bin'].endswith('+race'):
            env['GORACE'] = 'halt_on_error=1 exitcode=66'
        cmd = [self.bins[g['bin']], '-seed', str(seed), '-out', trace, '-hang', '90s'] + list(g['args']) + list(extra)
        if sync:
            cmd.append('-sync')
        rc, _, err, why = run_limited(cmd, env=env, cwd=self.work, timeout=g.get('timeout', 300))
        return rc, err, why, cmd

    def generate(self, gens):
        """Have TLC write out behaviours of the specification for the drivers to replay."""
        def one(gen):
            t = time.time()
            base = os.path.join(self.work, 'gen-' + gen_key(gen))
            with open(base + '.cfg', 'w') as f:
                f.write('CONSTANTS %s\n%s\n' % (' '.join('%s %s %s' % (k, '<-' if str(v).startswith('Src') else '=', v) for k, v in gen['constants']), gen['cfg']))
            r = tlc(self.work, gen['module'], base + '.cfg', workers=1, timeout=600, mem='4g')
            if not r['ok']:
                raise CheckError('cannot generate behaviours: %s: %s' % (gen, (r['out'] + r['err'])[-2000:]))
            n = 0
            with open(base + '.jsonl', 'w') as f:
                for m in re.finditer(r'^<<"%s", (".*")>>$' % gen['tag'], r['out'], re.M):
                    f.write(json.loads(m.group(1)) + '\n')
                    n += 1
            if n == 0:
                raise CheckError('no behaviours generated: %s' % gen)
            self.models.append(dict(module=gen['module'], constants=dict(gen['constants']), behaviours_generated=n, distinct=r['distinct'], generated=r['generated'], s=round(time.time() - t, 1)))
        todo = {gen_key(g[k]): g[k] for g in gens for k in ('gen', 'gen2') if k in g}
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            list(ex.map(one, todo.values()))

    def job(self, g, seed, i=0):
        if self.stop:
            return
        trace = os.path.join(self.work, 't-%s-%d.ndjson' % (g['name'], seed))
        extra = ()
        if 'gen' in g:
            extra = ['-in', os.path.join(self.work, 'gen-' + gen_key(g['gen']) + '.jsonl'), '-parts', str(g['parts']), '-part', str((i + self.seed) % g['parts'])]
            if 'gen2' in g:
                extra += ['-in2', os.path.join(self.work, 'gen-' + gen_key(g['gen2']) + '.jsonl')]
        rc, err, why, cmd = self.drive(g, seed, trace, extra=extra)
        what = None
        if rc == 66 and 'DATA RACE' in err:
            what = {'op': 'race', 'report': err[:6000]}
        elif rc == 3:
            pass  # a hang: the driver has written the event itself
        elif rc != 0:
            if 'panic: harness:' in err:
                raise CheckError('driver: ' + err[:2000])
            # the process died: once more, writing out every event at once
            rc2, err2, why2, cmd = self.drive(g, seed, trace, sync=True, extra=extra)
            if rc2 == 0:
                # not reproducible. Runtime-detected corruption or deadlock is real; anything else is no verdict.
                if re.search(r'all goroutines are asleep|concurrent map|SIGSEGV|nil pointer|index out of range|panic:', err) and why == '':
                    what = {'op': 'crash', 'report': err[:6000]}
                else:
                    raise CheckError('driver died once (%s %s), not the second time: %s' % (rc, why, err[:1500]))
            elif rc2 not in (3, 66):
                if why2 == 'timeout' and 'timeout' != why:
                    raise CheckError('driver died in two ways')
                what = {'op': 'runaway' if why2 else 'crash', 'why': why2, 'report': err2[:6000]}
            elif rc2 == 66:
                what = {'op': 'race', 'report': err2[:6000]}
        if what:
            self.repair(trace, what)
        self.validate(g, seed, trace, cmd)

    @staticmethod
    def repair(trace, what):
        """Drop a half-written last line and add the event that ended the run."""
        data = b''
        if os.path.exists(trace):
            with open(trace, 'rb') as f:
                data = f.read()
        data = data[:data.rfind(b'\n') + 1]
        if not data:
            data = b'{"op":"head","nr":1,"nb":1,"ni":1,"wt":[]}\n'
        with open(trace, 'wb') as f:
            f.write(data + json.dumps(what).encode() + b'\n')

    def validate(self, g, seed, trace, cmd):
        r = tlc(self.work, g['mod'], g['mod'], env={'TRACE': trace}, timeout=900, mem='3g')
        if r['ok']:
            n = collections.Counter()
            worlds = collections.Counter()
            sample = []
            with open(trace) as f:
                for ln, line in enumerate(f):
                    m = re.search(r'"op":"(\w+)"', line)
                    op = m.group(1) if m else '?'
                    n[op] += 1
                    if op == 'reset':
                        w = re.search(r'"what":"([^"]*)"', line)
                        worlds[re.sub(r'\d+', '#', w.group(1)) if w else '?'] += 1
                    elif len(sample) < 2 and ln in (7, 20) and len(line) < 400:
                        sample.append(json.loads(line))
            with self.lock:
                self.n['files'] += 1
                self.n['traces'] += n['reset'] or 1
                self.n['events'] += sum(n.values())
                self.n['states'] += r['distinct']
                self.n['transitions'] += r['generated']
                self.ops.update(n)
                self.worlds.update(worlds)
                self.groups[g['name']] += n['reset'] or 1
                if len(self.samples) < 6 and sample:
                    self.samples.append({'driver': ' '.join([os.path.basename(cmd[0])] + cmd[1:]).replace(self.work, ''), 'events': sample})
            os.remove(trace)
            return
        m = re.search(r'"REJECTED-AT", (\d+)', r['out'])
        if not m:
            raise CheckError('TLC gave no verdict on %s (%s): %s' % (trace, r['why'], (r['out'] + r['err'])[-3000:]))
        at = int(m.group(1))
        with self.lock:
            first = not self.violations
            self.violations.append(None)
            if first:
                self.stop = True
                self.violations[0] = self.save(g, seed, trace, cmd, at)
                self.report(self.violations[0])

    def save(self, g, seed, trace, cmd, at):
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, '%s-%s-%d' % (self.prop, g['name'], seed))
        with open(trace) as f:
            lines = f.readlines()
        # the episode that fails, with the header
        start = 1
        for i in range(min(at, len(lines)) - 1, 0, -1):
            if '"op":"reset"' in lines[i]:
                start = i
                break
        with open(base + '.ndjson', 'w') as f:
            f.writelines([lines[0]] + lines[start:at])
        bad = lines[at - 1] if at <= len(lines) else '(end)'
        info = dict(property=self.prop, module=g['mod'], trace=base + '.ndjson', rejected_event=bad[:4000],
                    episode=lines[start][:500], driver=cmd, env=g.get('env', {}), seed=seed,
                    again='python3 check.py --replay %s' % (base + '.json'))
        with open(base + '.json', 'w') as f:
            json.dump(info, f, indent=1)
        info['path'] = base + '.json'
        return info

    def report(self, v):
        print('rejected: no step of %s explains %s' % (v['module'], v['rejected_event'][:600].strip()))
        print('VIOLATION property=%s replay=%s' % (self.prop, v['path']), flush=True)

    # ---------------------------------------------------------------- models
    def model(self, m):
        if self.stop:
            return
        t = time.time()
        r = tlc(self.work, m['module'], m.get('cfg', m['module']), workers=m.get('workers', 2), timeout=m.get('timeout', 600), extra=m.get('extra', ()), mem=m.get('mem', '4g'), env=m.get('env'))
        if m.get('cut') and r['why'] == 'timeout':
            pass
        elif not r['ok']:
            raise CheckError('the specification itself fails: %s: %s' % (m, (r['out'] + r['err'])[-3000:]))
        with self.lock:
            self.models.append(dict(module=m['module'], cfg=m.get('cfg', m['module']), distinct=r['distinct'], generated=r['generated'], s=round(time.time() - t, 1)))
            self.n['states'] += r['distinct']
            self.n['transitions'] += r['generated']

    # ---------------------------------------------------------------- main
    def run(self):
        budget = self.plan.get('budget', {}).get(self.tier, 240 if self.tier == 'quick' else 780)
        root = tempfile.mkdtemp(prefix='frozenverif-')
        self.work = root
        try:
            groups = [g for g in self.plan['groups'] if g.get(self.tier, g.get('quick', 0))]
            bins = [g['bin'] for g in groups] + ['lazyset' for f in FINDINGS if f['property'] == self.prop]
            self.bins = build(root, bins)
            self.findings()
            self.generate([g for g in groups if 'gen' in g])
            deadline = self.t0 + budget
            jobs = []
            for m in self.plan.get('models', []):
                if self.tier in m.get('tiers', ('quick', 'thorough')):
                    jobs.append((lambda m=m: self.model(m)))
            per = [[(g, i) for i in range(g.get(self.tier, g['quick']))] for g in groups]
            k = 0
            while any(per):  # interleave the groups
                for q in per:
                    if q:
                        g, i = q.pop(0)
                        seed = (self.seed * 1000003 + (sum(map(ord, g['name'])) % 997) * 1009 + i) % (1 << 31)
                        jobs.append((lambda g=g, s=seed, i=i: None if time.time() > deadline else self.job(g, s, i)))
                k += 1
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                futs = [ex.submit(self.guarded, j) for j in jobs]
                for f in futs:
                    f.result()
        except CheckError as x:
            self.errors.append(str(x))
        finally:
            shutil.rmtree(root, ignore_errors=True)
        self.evidence()
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors[:3]:
                print('ERROR', e, file=sys.stderr)
            return 2
        print('%s held: %d traces (%d calls) of the real code validated, %d states, %.0f s' % (self.prop, self.n['traces'], self.n['events'], self.n['states'], time.time() - self.t0))
        return 0

    def guarded(self, j):
        try:
            j()
        except CheckError as x:
            with self.lock:
                self.errors.append(str(x))
                self.stop = True

    def findings(self):
        for f in FINDINGS:
            if f['property'] != self.prop:
                continue
            rc, out, err, why = run_limited([self.bins['lazyset'], '-mode', 'probe', '-out', os.path.join(self.work, 'probe')], env=go_env(), timeout=60)
            if f['shows'] in out:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
                self.known.append(f['what'])

    def evidence(self):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        cov = dict(states=self.n['states'], transitions=self.n['transitions'], traces_validated_against_impl=self.n['traces'],
                   calls_validated=self.n['events'], calls_by_kind=dict(self.ops.most_common()),
                   traces_by_group=dict(self.groups), worlds=dict(self.worlds.most_common(40)), models=self.models,
                   samples=self.samples or [{'note': 'no trace was accepted before the run ended'}])
        if self.known:
            cov['known_findings_seen'] = self.known
        if self.errors:
            cov['errors'] = [e[:500] for e in self.errors]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.plan.get('assumptions', []) + COMMON, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


COMMON = [
    'TLC evaluates the specification faithfully',
    'the driver reports arguments and answers as they are (it computes no expected results)',
    'coverage is of the sampled universes, hash layouts, histories and schedules, not of all',
]


def replay(path):
    with open(path) as f:
        info = json.load(f)
    d = tempfile.mkdtemp(prefix='frozenverif-')
    try:
        r = tlc(d, info['module'], info['module'], env={'TRACE': info['trace']})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print('accepted' if r['ok'] else 'rejected: ' + info['rejected_event'])
    return 0 if r['ok'] else 1


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return Check(prop, tier, seed).run()


if __name__ == '__main__':
    sys.exit(main())
