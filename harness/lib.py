"""Shared machinery: encoding of dyna objects as specification values, running TLC on
recorded cases, verdicts, evidence and known findings.

Nothing here decides a property: the verdict on every recorded case comes from TLC
evaluating the TLA+ specification (a `FAIL` record it prints, or a state-space search)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, random, hashlib
from fractions import Fraction
from contextlib import contextmanager

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = os.cpu_count() or 4

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def scratch(tag):
    base = os.path.join(ROOT, '.work')
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=f'{tag}-', dir=base)


# ---------------------------------------------------------------- TLC

class TLCError(Exception):
    pass


def tlc(module, cfg, workdir, env=None, workers=None, extra=(), timeout=850, heap='6g', deadlock=True):
    """Run TLC on spec module `module` with config text `cfg`. Returns the output text."""
    cfgp = os.path.join(workdir, f'{module}.cfg')
    with open(cfgp, 'w') as f:
        f.write(cfg)
    meta = os.path.join(workdir, 'meta')
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-DTLA-Library={SPEC}', '-cp', TLA_CP,
           'tlc2.TLC', '-config', cfgp, '-metadir', meta, '-workers', str(workers or WORKERS), '-lncheck', 'final']
    if not deadlock:
        pass
    else:
        cmd += ['-deadlock']
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        raise TLCError(f'TLC timed out on {module}')
    return p.returncode, out


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def _judge_once(module, cases, consts, timeout, heap, workers):
    wd = scratch(module)
    try:
        path = os.path.join(wd, 'cases.json')
        with open(path, 'w') as f:
            json.dump(cases, f)
        rc, out = tlc(module, 'INIT Init\nNEXT Next\n' + consts, wd, env={'CASES': path}, timeout=timeout,
                      heap=heap, workers=workers)
        done = set(int(x) for x in re.findall(r'^"OK\|(\d+)"', out, re.M))
        fails = {int(a): b[:3000] for a, b in re.findall(r'^"FAIL\|(\d+)\|(.*)"$', out, re.M)}
        err = None
        if re.search(r'^Error:', out, re.M) or (done | set(fails)) != set(range(1, len(cases) + 1)):
            m = re.search(r'^Error:.*', out, re.S | re.M)
            err = (m.group(0) if m else out[-3000:])[:3000]
            if 'Parsing or semantic analysis failed' in out or 'states generated' not in out and 'evaluat' not in out:
                raise TLCError(out[-3000:])
            if 'OutOfMemory' in out or 'Java heap' in out:
                raise TLCError('TLC ran out of memory: ' + err)
        return done, fails, err, tlc_stats(out)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def judge(module, cases, consts='', timeout=850, heap='6g', workers=None):
    """Have TLC judge the recorded `cases` with `module`: its Next evaluates Verdict(case) and
    prints "OK|i" or "FAIL|i|clauses".  Returns ({index: text}, (generated, distinct)).
    A case the specification cannot even interpret (TLC evaluation error) is isolated by
    re-running and reported as a failure of that case."""
    done, fails, err, st = _judge_once(module, cases, consts, timeout, heap, workers)
    if err is None:
        return fails, st
    todo = [i for i in range(1, len(cases) + 1) if i not in done and i not in fails]
    if len(cases) == 1 or not todo:
        if len(cases) == 1:
            return {1: 'outside the domain of the specification: ' + ' '.join(err.split())[:1500]}, st
        raise TLCError(err)
    budget = [24]

    def rec(ix):
        if not ix:
            return
        if budget[0] <= 0:
            raise TLCError('too many cases outside the specification; first error: ' + err)
        budget[0] -= 1
        sub = [cases[i - 1] for i in ix]
        d, f, e, _ = _judge_once(module, sub, consts, timeout, heap, workers)
        for k, t in f.items():
            fails[ix[k - 1]] = t
        if e is not None:
            rest = [ix[k - 1] for k in range(1, len(ix) + 1) if k not in d and k not in f]
            if len(ix) == 1:
                fails[ix[0]] = 'outside the domain of the specification: ' + ' '.join(e.split())[:1500]
            elif len([1 for t in fails.values() if t.startswith('outside')]) >= 3:
                return           # enough evidence; the remaining cases stay unjudged
            else:
                h = max(1, len(rest) // 2)
                rec(rest[:h])
                rec(rest[h:])
    h = max(1, len(todo) // 2)
    rec(todo[:h])
    rec(todo[h:])
    return fails, st


# ---------------------------------------------------------------- time limits

class CaseTimeout(Exception):
    pass


@contextmanager
def limit(seconds):
    """Limit for implementation calls; a call that the reference tree finishes in
    milliseconds and that exceeds this is reported as 'no answer'."""
    def h(sig, frm):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- check driver

class Check:
    """Collects verdicts for one property; prints VIOLATION / KNOWN-FINDING lines and
    writes the evidence file."""

    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.viol = []
        self.known_hit = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.samples = {}
        self.examples = []
        kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
        self.known = {f['key']: f for f in kf['findings'] if f['property'] == pid}

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def note(self, name, n=1):
        self.samples[name] = self.samples.get(name, 0) + n

    def example(self, kind, x):
        """keep a few actual cases of this run for the evidence file"""
        if sum(1 for e in self.examples if e['kind'] == kind) < 2:
            t = x if isinstance(x, str) else json.dumps(x, default=str)
            self.examples.append(dict(kind=kind, case=t[:1500]))

    def violation(self, key, what, data=None):
        """`key` identifies the failing input/history; `what` says what the specification
        required and what was observed."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        self.viol.append((key, what, data))

    def judge(self, module, cases, keyf, samples='cases', **kw):
        """Judge recorded cases with a specification module; register violations."""
        if not cases:
            return
        fails, (gen, dist) = judge(module, cases, **kw)
        self.count(states=dist, transitions=gen, traces_validated_against_impl=len(cases))
        self.note(samples, len(cases))
        self.example(samples, cases[0])
        for i, txt in sorted(fails.items()):
            c = cases[i - 1]
            self.violation(keyf(c), f'{module}: {txt}', c)
        return fails

    def finish(self):
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level,
                  coverage=dict(**self.cov, counts=self.samples, samples=self.examples[:12]),
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print(f'KNOWN-FINDING: property={self.pid} {self.known[k]["what"]}')
        if self.viol:
            rep = os.path.join(ROOT, '.work', f'replay-{self.pid}.json')
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(rep, 'w') as f:
                json.dump([dict(key=k, what=w, data=d) for k, w, d in self.viol[:50]], f, indent=1, default=str)
            for k, w, d in self.viol[:8]:
                print(f'  {k}: {w[:600]}')
            print(f'VIOLATION property={self.pid} replay={rep}')
            print(f'  ({len(self.viol)} violating cases)')
            sys.stdout.flush()
            return 1
        print(f'OK {self.pid} {json.dumps(self.cov)} {json.dumps(self.samples)} {ev["wall_s"]}s')
        return 0


# ---------------------------------------------------------------- parallel map over cases

def pmap(fn, items, procs=None, chunksize=1):
    """Fork-based map; keeps order. Workers are plain processes so that a case that
    exhausts memory or crashes the interpreter cannot take the check with it."""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    ctx = mp.get_context('fork')
    with ctx.Pool(procs or WORKERS) as pool:
        return pool.map(fn, items, chunksize)


def model_check(chk, module, invs, init='Init', next_='Next', extra='', env=None, spec=None):
    """Model-check a specification module on its own (no implementation involved); the
    specification itself being wrong is an error of the machinery, not a violation."""
    wd = scratch('mc' + module)
    try:
        rc, out = tlc(module, (f'SPECIFICATION {spec}\n' if spec else f'INIT {init}\nNEXT {next_}\n') + ''.join(f'INVARIANT {x}\n' for x in invs) + extra, wd, env=env)
        if re.search(r'^Error:', out, re.M):
            raise TLCError(f'{module}: ' + out[out.find('Error:'):][:3000])
        g, d = tlc_stats(out)
        chk.count(states=d, transitions=g)
        chk.note(f'{module} states', d)
        return d
    finally:
        shutil.rmtree(wd, ignore_errors=True)
