#!/usr/bin/env python3
"""Driver of the runtime monitors of /verif.

  run.py setup                 compile the harness once (warms the Go build cache)
  run.py check ID              decide property ID on /repo's working tree
  run.py replay FILE           re-run the case recorded in a replay file

The harness (harness/zz) is compiled into the module under test through a build
overlay, so it is always built from /repo's current tree and /repo stays as it is.
Each job of a check is split over processes; each process runs a fixed,
seed-determined list of cases and writes what its monitors observed as JSON lines.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import checks  # noqa: E402

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')
CPUS = max(2, min(8, os.cpu_count() or 8))


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOSUMDB='off')
    e['PATH'] = '/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    for k in ('VJOB', 'GODEBUG', 'GOGC', 'GOMAXPROCS', 'GORACE'):
        e.pop(k, None)
    return e


ENV = goenv()


class Broken(Exception):
    pass


# ---------------------------------------------------------------- building

def os_overlay(scratch, rep):
    """Overlay of the standard library's os package that reports every mutating
    file operation to a hook (used by the crash and fault monitors)."""
    root = subprocess.check_output(['go', 'env', 'GOROOT'], env=ENV, text=True).strip()
    import osoverlay
    for path, text in osoverlay.overlay(root).items():
        dst = os.path.join(scratch, 'os_' + os.path.basename(path))
        with open(dst, 'w') as f:
            f.write(text)
        rep[path] = dst


def build(scratch, variant):
    """variant: 'plain', 'race' or 'os' (os package with the file hook)."""
    rep = {}
    src = os.path.join(VERIF, 'harness', 'zz')
    for f in sorted(os.listdir(src)):
        if not f.endswith('.go'):
            continue
        if f.endswith('_os_test.go') and variant != 'os':
            continue
        rep[os.path.join(REPO, 'server', 'zzverif', f)] = os.path.join(src, f)
    if variant == 'os':
        os_overlay(scratch, rep)
    ov = os.path.join(scratch, 'overlay_%s.json' % variant)
    with open(ov, 'w') as f:
        json.dump({'Replace': rep}, f)
    # go.mod/go.sum are copied: a build never writes into /repo.
    mod = os.path.join(scratch, 'go_%s.mod' % variant)
    shutil.copy(os.path.join(REPO, 'go.mod'), mod)
    shutil.copy(os.path.join(REPO, 'go.sum'), mod[:-4] + '.sum')
    out = os.path.join(scratch, 'zz_' + variant)
    cmd = ['go', 'test', '-vet=off', '-c', '-o', out, '-overlay', ov, '-modfile', mod]
    if variant == 'race':
        cmd.append('-race')
    cmd.append('./server/zzverif/')
    p = subprocess.run(cmd, cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken('build (%s) failed:\n%s' % (variant, p.stdout[-4000:]))
    return out


# ---------------------------------------------------------------- running

def site(stack):
    """innermost repository frame of a goroutine dump"""
    for l in stack.splitlines():
        m = re.match(r'(github\.com/unit-io/unitdb[^\s]*)\(', l)
        if m and 'zzverif' not in l:
            return re.sub(r'\(\*?([A-Za-z0-9_]+)\)', r'\1', m.group(1)).replace('github.com/unit-io/', '')
    return 'unknown'


def first_goroutine(err):
    i = err.find('\ngoroutine ')
    return err[i:i + 6000] if i >= 0 else err[:6000]


def race_reports(text):
    out = []
    for blk in text.split('WARNING: DATA RACE')[1:]:
        blk = blk.split('==================')[0]
        parts = re.split(r'\n(?=Previous |\s*Goroutine )', blk)
        sites = []
        for part in parts[:2]:
            fr = [m for m in re.findall(r'\n  (\S+)\(\)\n', '\n' + part)]
            fr = [f for f in fr if 'unit-io/unitdb' in f and 'zzverif' not in f]
            sites.append(fr[0].split('/')[-1] if fr else '?')
        if all(s == '?' for s in sites):
            sites = ['harness']
        out.append(('race:' + '|'.join(sorted(set(sites))), blk[:5000]))
    return out


def looks_deadlocked(dump):
    """All goroutines that are inside the code under test wait; none runs."""
    waiting = 0
    for g in re.split(r'\n\n(?=goroutine )', dump):
        m = re.match(r'goroutine \d+(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],]+)', g.strip())
        if not m or 'unit-io/unitdb' not in g:
            continue
        st = m.group(1)
        if 'server/zzverif.' in g and 'signal' in g:
            continue
        if re.match(r'(sync\.|semacquire|chan |select|sleep|IO wait|finalizer|syscall)', st):
            if re.match(r'(sync\.(RW)?Mutex|sync\.RWMutex|semacquire|chan )', st):
                waiting += 1
        elif st.startswith(('running', 'runnable')):
            return False
    return waiting > 0


def busy_goroutine(dump):
    """A goroutine that runs in the code under test."""
    for g in re.split(r'\n\n(?=goroutine )', dump):
        m = re.match(r'goroutine \d+(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[(running|runnable)', g.strip())
        f = re.search(r'\n(github.com/unit-io/unitdb\S+)', g)
        if m and f and '/server/zzverif.' not in f.group(1):
            return g
    return ''


class Runner:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.bins = {}
        self.lock = threading.Lock()
        self.viols = []        # dict(sig,msg,job,case)
        self.stats, self.sets, self.samples = {}, {}, []
        self.errors = []
        self.procs = 0
        self.jobstats = {}
        self.stop = False
        self.t0 = time.time()
        self.known = dict(known_findings(prop))

    def binary(self, variant):
        if variant not in self.bins:
            self.bins[variant] = build(self.scratch, variant)
        return self.bins[variant]

    def viol(self, sig, msg, job, case):
        with self.lock:
            self.viols.append(dict(sig=sig, msg=msg, job=job, case=case))
            # Enough witnesses: stop early, but keep looking past known findings.
            if len({v['sig'] for v in self.viols}) >= 12 or len(self.viols) > 60:
                self.stop = True

    def witnessed(self, out):
        """whether some process has written a violation down and enough time was spent on more of them"""
        if time.time() < self.t0 + 150:
            return False
        if not self.stop and os.path.exists(out):
            with open(out, errors='replace') as f:
                for l in f:
                    if '"viol"' in l:
                        try:
                            m = json.loads(l)
                        except ValueError:
                            continue
                        if m.get('t') == 'viol' and m['sig'] not in self.known:
                            self.stop = True
        if any(v['sig'] not in self.known for v in list(self.viols)):
            self.stop = True
        return self.stop

    def run_chunk(self, spec, lo, hi, tag):
        """runs cases [lo,hi) of a job, restarting after a case that killed the process"""
        i, restarts = lo, 0
        while i < hi and not self.stop:
            d = tempfile.mkdtemp(prefix=tag, dir=self.scratch)
            job = dict(kind=spec['kind'], prop=self.prop, seed=self.seed, n=hi, only=-1,
                       params=dict(spec.get('params', {}), tier=self.tier), dir=os.path.join(d, 'w'),
                       out=os.path.join(d, 'out'))
            job['from'] = i
            nxt = self.one(spec, job, d)
            shutil.rmtree(d, ignore_errors=True)
            if nxt is None:
                return
            i = nxt
            restarts += 1
            if restarts > 25:
                return

    def one(self, spec, job, d):
        os.mkdir(job['dir'])
        with open(os.path.join(d, 'job'), 'w') as f:
            json.dump(job, f)
        env = dict(ENV, VJOB=os.path.join(d, 'job'), GOTRACEBACK='all', TMPDIR=job['dir'])
        if spec.get('gomaxprocs'):
            env['GOMAXPROCS'] = str(spec['gomaxprocs'])
        if spec.get('variant') == 'race':
            env['GORACE'] = 'halt_on_error=0 exitcode=0 log_path=' + os.path.join(d, 'race')
        limit = spec.get('timeout', 400)
        errf = open(os.path.join(d, 'err'), 'wb')
        cmd = [self.binary(spec.get('variant', 'plain')), '-test.run', '^TestJob$', '-test.timeout=0']
        if spec.get('variant') != 'race':
            # With a limit of its own a process that takes too much memory ends with a fatal error, which is
            # reported. (The race detector reserves more addresses than any limit.)
            cmd = ['sh', '-c', 'ulimit -v %d; exec "$@"' % (spec.get('memory', 6) << 20), 'sh'] + cmd
        p = subprocess.Popen(cmd,
                             cwd=job['dir'], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf,
                             start_new_session=True)
        hung = cut = False
        end = time.time() + limit
        while True:
            try:
                p.wait(min(2, max(0.1, end - time.time())))
                break
            except subprocess.TimeoutExpired:
                pass
            if self.witnessed(job['out']):
                cut = True
                break
            if time.time() > end:
                hung = True
                os.kill(p.pid, signal.SIGQUIT)
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    pass
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        errf.close()
        err = open(errf.name, errors='replace').read()
        last, done, spec_job = job['from'], False, dict(job)
        started = False
        lines = []
        if os.path.exists(job['out']):
            for l in open(job['out'], errors='replace'):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        jb = dict(kind=spec['kind'], params=spec.get('params', {}), variant=spec.get('variant', 'plain'), seed=job['seed'])
        panicked, busy = False, 0
        with self.lock:
            self.procs += 1
        for m in lines:
            t = m.get('t')
            if t == 'case':
                last, started = m['i'], True
            elif t == 'viol':
                self.viol(m['sig'], m['msg'], jb, m['i'])
            elif t == 'stall':
                hung, err, busy = True, m['stack'], m.get('cpu', 0)
            elif t == 'panic':
                panicked = True
                self.viol('panic@' + site(m['stack']), m['msg'] + '\n' + m['stack'][:4000], jb, m['i'])
            elif t == 'sample':
                with self.lock:
                    if len(self.samples) < 6:
                        self.samples.append(m['v'])
            elif t == 'done':
                done = True
                with self.lock:
                    for k, v in m['stats'].items():
                        self.stats[k] = self.stats.get(k, 0) + v
                        js = self.jobstats.setdefault(spec['name'], {})
                        js[k] = js.get(k, 0) + v
                    for k, v in m['hashes'].items():
                        self.sets.setdefault(k, set()).update(v)
        if spec.get('variant') == 'race':
            txt = ''
            for f in os.listdir(d):
                if f.startswith('race.'):
                    txt += open(os.path.join(d, f), errors='replace').read()
            seen = set()
            for sig, blk in race_reports(txt):
                if sig in seen:
                    continue
                seen.add(sig)
                if sig == 'race:harness':
                    with self.lock:
                        self.errors.append('race inside the harness:\n' + blk)
                    continue
                self.viol(sig, blk, jb, last)
        if cut or done and p.returncode == 0 and not hung:
            return None
        if panicked:
            return last + 1
        if hung:
            if looks_deadlocked(err):
                self.viol('deadlock', 'no goroutine of the system can proceed:\n' + err[:5000], jb, last)
                self.stop = True
                return None
            if busy > 50 and busy_goroutine(err):
                self.viol('endless', 'no event for %d s of processor time:\n' % busy + busy_goroutine(err)[:5000], jb, last)
                self.stop = True
                return None
            with self.lock:
                self.errors.append('inconclusive: %s case %d exceeded %ds\n%s' % (spec['name'], last, limit, err[:3000]))
            return None
        if not started:
            with self.lock:
                self.errors.append('%s: process ended (%s) before its first case: %s' % (spec['name'], p.returncode, err[-2000:]))
            return None
        # the process died: an unrecovered panic or fatal error of the system under test
        m = re.search(r'(panic: [^\n]*|fatal error: [^\n]*|unexpected fault[^\n]*)', err)
        if not m:
            with self.lock:
                self.errors.append('%s case %d: process ended with %s: %s' % (spec['name'], last, p.returncode, err[-2000:]))
            return None
        where = site(first_goroutine(err))
        if 'deadlock' in m.group(1):
            where = 'deadlock'
        self.viol('crash@' + where, m.group(1) + first_goroutine(err), jb, last)
        return last + 1

    def run(self, specs):
        for v in sorted({s.get('variant', 'plain') for s in specs}):
            self.binary(v)
        work = []
        for k, s in enumerate(specs):
            s.setdefault('name', s['kind'] + str(k))
            n, c = s['n'], max(1, min(s['n'], s.get('chunks', CPUS)))
            for x in range(c):
                lo, hi = n * x // c, n * (x + 1) // c
                if lo < hi:
                    work.append((s.get('weight', 1), s, lo, hi, 'j%d_%d_' % (k, x)))
        work.sort(key=lambda w: -w[0])
        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(lambda w: self.run_chunk(*w[1:]), work))


# ---------------------------------------------------------------- verdicts

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def scratch_dir():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    if base:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 3 << 30:
            base = None
    return tempfile.mkdtemp(prefix='unitdb_verif_', dir=base)


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = checks.CHECKS[prop]
    scratch = scratch_dir()
    try:
        r = Runner(prop, tier, seed, scratch)
        specs = [dict(s) for s in c['jobs'](tier)]
        r.run(specs)
        return verdict(prop, tier, seed, c, r, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verdict(prop, tier, seed, c, r, t0):
    known = dict(known_findings(prop))
    hit, new = {}, {}
    for v in r.viols:
        if v['sig'] in known:
            hit[v['sig']] = v
        else:
            new.setdefault(v['sig'], []).append(v)
    for sig in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[sig]))
    stats = r.stats
    lacking = []
    for k, minimum in c.get('require', {}).items():
        have = stats.get(k, 0) if k in stats else len(r.sets.get(k, ()))
        if have < minimum:
            lacking.append('%s=%d (need %d)' % (k, have, minimum))
    ev = sum(stats.get(k, 0) for k in c['evaluations'])
    dn = sum(len(r.sets.get(k, ())) for k in c['distinct'])
    evid = dict(property=prop, tier=tier, seed=seed, level=c['level'],
                coverage=dict(evaluations=ev, distinct_nontrivial=min(dn, ev) if ev else dn, rule=c['rule'],
                              samples=r.samples or [{'note': 'no sample recorded'}],
                              observed=stats, distinct_sets={k: len(v) for k, v in sorted(r.sets.items())},
                              per_job=r.jobstats, processes=r.procs),
                assumptions=c.get('assumptions', []), wall_s=round(time.time() - t0, 1),
                violations=sum(len(v) for v in new.values()))
    evid['coverage']['known_findings_observed'] = sorted(hit)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evid, f, indent=1)
    os.replace(path + '.tmp', path)
    if new:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for sig in sorted(new)[:10]:
            v = new[sig][0]
            rp = os.path.join(rd, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.@-]+', '_', sig)[:80]))
            with open(rp, 'w') as f:
                json.dump(dict(property=prop, sig=sig, **{k: v[k] for k in ('job', 'case', 'msg')}, count=len(new[sig]),
                               rerun='python3 run.py replay ' + rp), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  %s (x%d, %s case %s): %s' % (sig, len(new[sig]), v['job']['kind'], v['case'], v['msg'][:1500].replace('\n', '\n  ')))
        return 1
    if r.errors:
        print('ERROR: inconclusive\n' + '\n'.join(r.errors[:5]))
        return 2
    if lacking:
        print('ERROR: the monitors observed too little: ' + ', '.join(lacking))
        return 2
    print('HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d processes=%d wall=%.0fs' %
          (prop, tier, seed, ev, dn, r.procs, time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path))
    scratch = scratch_dir()
    try:
        r = Runner(v['property'], 'quick', v['job']['seed'], scratch)
        spec = dict(kind=v['job']['kind'], params=v['job']['params'], variant=v['job']['variant'], name='replay', n=v['case'] + 1)
        r.binary(spec['variant'])
        r.run_chunk(spec, v['case'], v['case'] + 1, 'rp')
        for x in r.viols:
            print('VIOLATION property=%s replay=%s\n  %s: %s' % (v['property'], path, x['sig'], x['msg']))
        for x in r.errors:
            print(x)
        return 1 if r.viols else (2 if r.errors else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = scratch_dir()
    try:
        for v in sorted({s.get('variant', 'plain') for c in checks.CHECKS.values() for s in c['jobs']('quick')}):
            t = time.time()
            build(scratch, v)
            print('built %s in %.0fs' % (v, time.time() - t))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['setup']:
            return setup()
        if a[:1] == ['check'] and len(a) == 2:
            return check(a[1])
        if a[:1] == ['replay'] and len(a) == 2:
            return replay(a[1])
        print(__doc__)
        return 2
    except Broken as e:
        print('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
