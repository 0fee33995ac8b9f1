"""Orchestration shared by all checks: scratch build of the code under test,
TLC runs, scenario generation from TLC's state graph, driver runs, trace
validation, known findings, evidence and verdicts.  Standard library only.
"""
import collections
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VPY = '/opt/venv/bin/python'
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
NCPU = max(1, min(8, os.cpu_count() or 1))

BASE_ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
    'PYTHONNOUSERSITE': '1', 'ZOPE_INTERFACE_STRICT_IRO': '1',
}
CONFIGS = {
    'c': {'PURE_PYTHON': '0'},
    'py': {'PURE_PYTHON': '1'},
    'c-watch': {'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '1'},
    'py-watch': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '1'},
    'c-watch3': {'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '3'},
    'py-watchyes': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': 'yes'},
    'c-watch2': {'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '2'},
    'py-watch2': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '2'},
}


class MachineryError(Exception):
    """Something of ours failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def jdump(o):
    return json.dumps(o, sort_keys=True)


class Scratch:
    """A scratch directory with a copy of the tree under test, built."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='zsv-')
        self.tree = os.path.join(self.dir, 'tree')
        self.n = 0
        self.lock = threading.Lock()

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, '%03d-%s' % (self.n, name))

    def build(self):
        ign = shutil.ignore_patterns('.git', 'build', 'docs', '*.so', '__pycache__', '*.egg-info')
        shutil.copytree(REPO, self.tree, ignore=ign, symlinks=True)
        env = dict(os.environ, **BASE_ENV)
        env.pop('PYTHONPATH', None)
        p = subprocess.run([VPY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'],
                           cwd=self.tree, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        d = os.path.join(self.tree, 'src/zope/security')
        sos = [f for f in os.listdir(d) if f.endswith('.so')]
        if p.returncode or len(sos) < 2:
            raise MachineryError('building the C extensions failed:\n' + p.stdout[-3000:])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- TLC

TLC_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc(scratch, module, cfg, env=None, timeout=800, workers=1, heap='3g', extra=(), out=None):
    """Run TLC; returns (returncode, path of its output)."""
    out = out or scratch.path(module + '.tlc')
    meta = tempfile.mkdtemp(prefix='md-', dir=scratch.dir)
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xss64m' % heap
    e.update({'EMIT': '0'})
    e.update(env or {})
    if os.path.isabs(cfg):
        cfgp = cfg
    else:
        cfgp = os.path.join(SPEC, cfg)
    with open(out, 'w') as f:
        try:
            p = subprocess.run(
                ['tlc', '-noTE', '-workers', str(workers), '-metadir', meta,
                 *extra, '-config', cfgp, module + '.tla'],
                cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def unquote(line):
    """TLC prints strings with \\ and " escaped, inside quotes."""
    return json.loads(line)


class MC:
    """Result of a model-checking run."""

    def __init__(self, name):
        self.name = name
        self.states = self.transitions = 0
        self.setups = []            # [(impl, state, events)]
        self.edges = []             # [(s, e, obs, t)]
        self.ops = collections.Counter()


def run_mc(scratch, module, cfg, emit=False, workers=None, timeout=800, heap='6g'):
    """Model-check spec/<module>.tla with spec/<cfg>.  A failure here is an
    error of the machinery: the specification does not depend on the code."""
    rc, out = tlc(scratch, module, cfg, env={'EMIT': '1' if emit else '0'},
                  workers=1 if emit else (workers or NCPU), timeout=timeout, heap=heap)
    r = MC(cfg)
    ids = {}

    def sid(s):
        k = hashlib.md5(jdump(s).encode()).digest()
        return ids.setdefault(k, len(ids))

    good = False
    with open(out) as f:
        for line in f:
            if line.startswith('"EDGE '):
                d = json.loads(unquote(line)[5:])
                r.edges.append((sid(d['s']), d['e'], d['o'], sid(d['t'])))
                r.ops[d['e']['op'] + '/' + str(d['o'].get('r', ''))] += 1
            elif line.startswith('"SETUP '):
                d = json.loads(unquote(line)[6:])
                r.setups.append((d['impl'], sid(d['s']), d['es']))
            elif 'Model checking completed. No error' in line:
                good = True
            else:
                m = TLC_STATS.match(line)
                if m:
                    r.transitions, r.states = int(m.group(1)), int(m.group(2))
    if not good:
        with open(out) as f:
            tail = ''.join(l for l in f if not l.startswith('"'))[-4000:]
        raise MachineryError('TLC on %s/%s (rc %s):\n%s' % (module, cfg, rc, tail))
    return r


def tour(mc, impl, rng, maxlen=400, keep=None, looks=6):
    """Episodes (lists of events) that together take every transition of the
    explored state graph for the given implementation (`keep` may filter).

    Whether the implementation has reached the state the specification says
    is looked at after every call that could have changed it: `looks` calls
    of kinds that never change the state follow it."""
    setups = [s for s in mc.setups if s[0] == impl] or mc.setups
    out = collections.defaultdict(list)
    changing = {e['op'] for s, e, o, t in mc.edges if s != t}
    look = collections.defaultdict(list)
    for s, e, o, t in mc.edges:
        if keep is None or keep(e, o):
            out[s].append((e, t))
            if e['op'] not in changing:
                look[s].append(e)
    # one way from a state to each of its successors
    succ = {s: list({t: (e, t) for e, t in reversed(ets)}.values()) for s, ets in out.items()}
    todo = {}
    for s in out:
        l = list(out[s])
        rng.shuffle(l)
        # transitions that stay first, so that each visit is used
        l.sort(key=lambda et: et[1] == s)
        todo[s] = l
    episodes = []
    for _impl, start, es in setups:
        # states reachable from this start
        reach = {start}
        q = collections.deque([start])
        while q:
            u = q.popleft()
            for e, t in out.get(u, ()):
                if t not in reach:
                    reach.add(t)
                    q.append(t)
        left = sum(len(todo.get(s, ())) for s in reach)
        while left:
            ep = list(es)
            u = start
            n = 0
            while left and n < maxlen:
                after = ()
                if todo.get(u):
                    e, t = todo[u].pop()
                    left -= 1
                    if e['op'] in changing:
                        after = rng.sample(look[t], min(looks, len(look[t])))
                else:
                    # shortest way to a state with untaken transitions
                    prev = {u: None}
                    q = collections.deque([u])
                    goal = None
                    while q:
                        x = q.popleft()
                        if todo.get(x):
                            goal = x
                            break
                        for e, t in succ.get(x, ()):
                            if t not in prev:
                                prev[t] = (x, e)
                                q.append(t)
                    if goal is None:
                        break
                    path = []
                    x = goal
                    while prev[x]:
                        path.append((prev[x][1], x))
                        x = prev[x][0]
                    for e, x in reversed(path):
                        ep.append(e)
                        n += 1
                    u = goal
                    continue
                ep.append(e)
                ep.extend(after)
                n += 1 + len(after)
                u = t
            episodes.append(ep)
            if n == 0:
                break
    return episodes


# ------------------------------------------------------------ drivers

class Crash:
    def __init__(self, line, why, err):
        self.line, self.why, self.err = line, why, err


def write_scenario(path, episodes, impl, src):
    with open(path, 'w') as f:
        for n, ep in enumerate(episodes):
            extra = {}
            evs = ep
            if ep and ep[0].get('op') == 'reset':
                extra, evs = ep[0], ep[1:]
            f.write(jdump(dict(extra, op='reset', impl=impl, src=src, ep=n)) + '\n')
            for e in evs:
                f.write(jdump(e) + '\n')


def run_driver(scratch, driver, config, scenario, timeout=600, extra_env=None):
    """Run the driver over the scenario; on a crash note it and go on with the
    next episode.  Returns (trace path, [Crash])."""
    trace = scratch.path('trace-%s.ndjson' % config)
    prog = scratch.path('progress')
    crashes = []
    env = {k: v for k, v in os.environ.items()
           if k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'VERIF_SEED', 'VERIF_TIER')}
    env.update(BASE_ENV)
    env.update(CONFIGS[config])
    env.update(extra_env or {})
    start = 0
    deadline = time.time() + timeout
    open(trace, 'w').close()
    while True:
        with open(prog, 'w') as f:
            f.write('%-12d' % -1)
        errp = scratch.path('driver.err')
        wd = tempfile.mkdtemp(prefix='wd-', dir=scratch.dir)
        with open(errp, 'w') as ef:
            p = subprocess.Popen(
                [VPY, os.path.join(VERIF, 'harness', driver), '--tree', scratch.tree,
                 '--scenario', scenario, '--trace', trace, '--progress', prog,
                 '--start', str(start)],
                cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=ef,
                start_new_session=True)
            # a driver is stuck when one call does not return
            why = None
            lastp, lastt = None, time.time()
            while True:
                try:
                    rc = p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    with open(prog) as f:
                        cur = f.read()
                    if cur != lastp:
                        lastp, lastt = cur, time.time()
                    if time.time() - lastt > 60:
                        why = 'no answer within 60 s'
                    elif time.time() > deadline:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        raise MachineryError('driver %s ran out of time' % driver)
                    if why:
                        os.killpg(p.pid, signal.SIGKILL)
                        rc = p.wait()
                        break
        shutil.rmtree(wd, ignore_errors=True)
        with open(errp, errors='replace') as f:
            err = f.read()
        if rc == 0:
            return trace, crashes
        with open(prog) as f:
            at = int(f.read().split()[0])
        if at < 0 or (rc > 0 and why is None):
            # could not even start, or failed in a controlled way
            raise DriverFailed(driver, config, rc, err)
        if why is None:
            why = 'killed by signal %d' % -rc
        crashes.append(Crash(at, why, err[-2000:]))
        if len(crashes) > 20:
            return trace, crashes
        # complete the trace up to the crashed call; go on at next episode
        done = trim_trace(trace)
        start = next_reset(scenario, at + 1)
        with open(scenario) as f:
            lines = f.readlines()
        with open(trace, 'a') as f:
            # keep line numbers aligned with the scenario
            for k in range(done, start):
                f.write(jdump({'op': 'reset', 'impl': 'c', 'src': 'crashed', 'ep': -1}) + '\n')
        if start >= len(lines):
            return trace, crashes


def split_scenario(scratch, path, parts):
    """Pieces of a scenario, cut at episodes: [(offset in lines, path)]."""
    with open(path) as f:
        lines = f.readlines()
    size = max(len(lines) // parts + 1, 1500)
    cuts = [0]
    for n, l in enumerate(lines):
        if n - cuts[-1] >= size and '"op": "reset"' in l:
            cuts.append(n)
    cuts.append(len(lines))
    res = []
    for a, b in zip(cuts, cuts[1:]):
        p = scratch.path('piece.ndjson')
        with open(p, 'w') as f:
            f.writelines(lines[a:b])
        res.append((a, p))
    return res


class DriverFailed(Exception):
    def __init__(self, driver, config, rc, err):
        self.err = err
        Exception.__init__(self, '%s (%s) exited with %s:\n%s' % (driver, config, rc, err[-3000:]))


def trim_trace(path):
    with open(path) as f:
        data = f.read()
    lines = data.split('\n')
    lines.pop()                          # an incomplete last line, or ''
    with open(path, 'w') as f:
        f.write(''.join(l + '\n' for l in lines))
    return len(lines)


def next_reset(path, at):
    with open(path) as f:
        n = -1
        for n, line in enumerate(f):
            if n >= at and '"op": "reset"' in line:
                return n
    return n + 1


# --------------------------------------------------- trace validation

class Mismatch:
    def __init__(self, line, exp, kind='obs'):
        self.line, self.exp, self.kind = line, exp, kind


def validate(scratch, module, traces, cfg='Tr.cfg', timeout=800, chunk=24000):
    """Judge traces against spec/<module>.tla, in parallel pieces cut at
    episode boundaries.  Returns, for each trace, its [Mismatch]."""
    total = 0
    for t in traces:
        with open(t) as f:
            total += sum(1 for _ in f)
    if not total:
        raise MachineryError('empty traces for ' + module)
    size = max(min(chunk, total // NCPU + 1), 1500)
    jobs = []                            # (path, output, [(trace, first line, lines)])
    cur, parts, n = None, [], 0

    def done():
        nonlocal cur, parts, n
        if cur is not None:
            cur.close()
            jobs.append((cur.name, scratch.path('validate.tlc'), n, parts))
        cur, parts, n = None, [], 0

    for k, t in enumerate(traces):
        with open(t) as f:
            for m, line in enumerate(f):
                if '"op": "reset"' in line and n >= size:
                    done()
                if cur is None:
                    cur = open(scratch.path('chunk.ndjson'), 'w')
                if not parts or parts[-1][1] != k:
                    parts.append((n, k, m))
                cur.write(line)
                n += 1
    done()

    def one(job):
        p, out, n, parts = job
        rc, out = tlc(scratch, module, cfg, env={'TRACE': p}, timeout=timeout, heap='2500m', out=out)
        res, done = [], None

        def found(at, exp, kind):
            off, k, m = [x for x in parts if x[0] <= at][-1]
            res.append((k, Mismatch(m + at - off, exp, kind)))

        with open(out) as f:
            for line in f:
                if line.startswith('"MISMATCH '):
                    d = json.loads(unquote(line)[9:])
                    found(d['line'] - 1, d['exp'], 'obs')
                elif line.startswith('"INVFAIL '):
                    d = json.loads(unquote(line)[8:])
                    found(d['line'] - 1, [], 'inv')
                elif line.startswith('"DONE '):
                    done = json.loads(unquote(line)[5:])
        os.unlink(p)
        if done is None or done['lines'] != n or done['bad'] != len(res):
            with open(out) as f:
                tail = f.read()[-6000:]
            raise MachineryError('trace validation by %s gave no verdict (rc %s):\n%s' % (module, rc, tail))
        return res

    found = [[] for _ in traces]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for res in ex.map(one, jobs):
            for k, m in res:
                found[k].append(m)
    return found


# ------------------------------------------------------------- checks

def load_known():
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    res.append(json.loads(line))
    return res


def subset_match(pat, val):
    if isinstance(pat, dict):
        return isinstance(val, dict) and all(k in val and subset_match(v, val[k]) for k, v in pat.items())
    if isinstance(pat, list):
        return val in pat
    return pat == val


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        self.scratch = Scratch()
        self.states = self.transitions = 0
        self.episodes = 0
        self.events = 0
        self.by_config = collections.Counter()
        self.ops = collections.Counter()
        self.specs = []
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.known = [k for k in load_known() if k.get('property') == prop and k.get('kind') == 'known']
        self.assumptions = []
        self.extra = {}
        self.nreplay = 0
        self.pending = []

    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def build(self):
        self.scratch.build()

    def mc(self, module, cfg, emit=False, **kw):
        t = time.time()
        r = run_mc(self.scratch, module, cfg, emit=emit, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.specs.append({'module': module, 'config': cfg, 'states': r.states,
                           'transitions': r.transitions, 'seconds': round(time.time() - t, 1)})
        log('[%s] TLC %s %s: %d states, %d transitions, %.1fs' % (
            self.prop, module, cfg, r.states, r.transitions, time.time() - t))
        return r

    def mcs(self, module, cfgs, **kw):
        """Several model-checking runs side by side."""
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda cfg: self.mc(module, cfg, **kw), cfgs))

    def conform(self, driver, module, episodes, configs=('c', 'py'), src='', timeout=700,
                only=None, extra_env=None):
        """Perform the episodes on the real code in each configuration and
        judge the recorded traces.  `episodes` is a list, or a function of the
        implementation ("c" or "py") that gives one."""
        jobs = []
        for config in configs:
            impl = config.split('-')[0]
            eps = episodes(impl) if callable(episodes) else episodes
            if not eps:
                continue
            sc = self.scratch.path('scenario-%s.ndjson' % config)
            write_scenario(sc, eps, impl, src)
            jobs.append((config, len(eps), sc, split_scenario(self.scratch, sc, max(1, NCPU // len(configs)))))
        t0 = time.time()
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            runs = {}
            for config, _n, _sc, parts in jobs:
                runs[config] = [(off, ex.submit(run_driver, self.scratch, driver, config, part, timeout=timeout,
                                                extra_env=extra_env)) for off, part in parts]
        log('[%s] %s %s: %.1fs' % (self.prop, driver, src, time.time() - t0))
        for config, neps, sc, _parts in jobs:
            crashes = []
            trace = self.scratch.path('trace-%s.ndjson' % config)
            try:
                with open(trace, 'w') as f:
                    for off, fut in runs[config]:
                        part, cr = fut.result()
                        with open(part) as g:
                            shutil.copyfileobj(g, f)
                        os.unlink(part)
                        for c in cr:
                            c.line += off
                        crashes += cr
            except DriverFailed as e:
                # the driver uses only documented API: if it cannot run,
                # the code under test does not offer what it should
                self.violation(config, module, [], None, [], 'driver could not run: ' + e.err[-1500:],
                               driver, {'op': 'import'})
                continue
            with open(trace) as f:
                nl = sum(1 for _ in f)
            self.pending.append((config, module, driver, src, neps, sc, trace, crashes, nl))
        if sum(p[-1] for p in self.pending) > 600000:
            self.judge()

    def judge(self):
        """Judge the recorded traces that have not been judged yet, those of
        one specification together."""
        pending, self.pending = self.pending, []
        for module in sorted({p[1] for p in pending}):
            t = time.time()
            mine = [p for p in pending if p[1] == module]
            mism = validate(self.scratch, module, [p[6] for p in mine])
            log('[%s] %s judged %d events in %.1fs' % (self.prop, module, sum(p[8] for p in mine), time.time() - t))
            for (config, _m, driver, src, neps, sc, trace, crashes, nl), found in zip(mine, mism):
                self.conclude(config, module, driver, src, neps, sc, trace, crashes, nl, found)

    def conclude(self, config, module, driver, src, neps, sc, trace, crashes, nl, mism):
        with open(trace) as f:
            lines = f.readlines()
        with open(sc) as f:
            sclines = f.readlines()
        self.note_trace(config, lines, neps, src)
        crash_lines = {c.line for c in crashes}
        for c in crashes:
            ep = self.episode(sclines, c.line)
            self.violation(config, module, ep, None, [], c.why + '\n' + c.err[-1500:], driver, json.loads(sclines[c.line]))
        for m in mism:
            if m.line in crash_lines:
                continue
            ev = json.loads(lines[m.line])
            self.violation(config, module, self.episode(lines, m.line), ev.get('obs'), m.exp,
                           'invariant' if m.kind == 'inv' else 'observation', driver, ev)
        log('[%s] %s %s %s: %d episodes, %d events, %d mismatches, %d crashes' % (
            self.prop, driver, config, src, neps, nl, len(mism), len(crashes)))
        os.unlink(trace)
        os.unlink(sc)

    def note_trace(self, config, lines, neps, src):
        self.episodes += neps
        self.by_config[config] += neps
        for l in lines:
            if '"op": "reset"' in l:
                continue
            self.events += 1
            e = json.loads(l)
            r = e.get('obs', {}).get('r', '')
            self.ops['%s -> %s' % (e['op'], r)] += 1
            h = hashlib.md5((config + l).encode()).digest()[:8]
            self.distinct.add(h)
        want = [l for l in lines if '"obs"' in l and '"op": "reset"' not in l]
        if want and len(self.samples) < 12:
            r = random.Random(len(self.samples) + self.seed)
            l = json.loads(r.choice(want))
            l['config'] = config
            l['source'] = src
            self.samples.append(l)

    @staticmethod
    def episode(lines, at):
        k = at
        while k > 0 and '"op": "reset"' not in lines[k]:
            k -= 1
        return [json.loads(l) for l in lines[k:at + 1]]

    def violation(self, config, module, ep, obs, exp, why, driver, ev):
        sig = {'config': config, 'event': ev, 'obs': obs or {}, 'why': why.split('\n')[0]}
        if ep and ep[0].get('src'):
            sig['src'] = ep[0]['src']
        for k in self.known:
            if subset_match(k['match'], sig):
                self.known_hits.setdefault(k['what'], 0)
                self.known_hits[k['what']] += 1
                return
        self.nreplay += 1
        path = ''
        if self.nreplay <= 25:
            d = os.path.join(OUT, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s-%d.json' % (self.prop, config, self.nreplay))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'config': config, 'driver': driver,
                           'spec': module, 'why': why, 'event': ev, 'observed': obs,
                           'allowed_by_spec': exp, 'episode': ep}, f, indent=1)
        self.violations.append((path, sig, exp))

    def direct_violation(self, what, detail, config='c'):
        """A violation found by a means other than a trace line."""
        self.violation(config, '', [], detail, [], what, '', {'op': what})

    def finish(self):
        self.judge()
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.episodes,
            'samples': self.samples or ['none'],
            'events_replayed_on_the_code': self.events,
            'distinct_event_observations': len(self.distinct),
            'episodes_by_configuration': dict(self.by_config),
            'tlc_runs': self.specs,
            'calls_by_outcome': dict(sorted(self.ops.items(), key=lambda kv: -kv[1])[:150]),
        }
        if self.level == 'exploration':
            cov['evaluations'] = self.events
            cov['distinct_nontrivial'] = len(self.distinct)
            cov['rule'] = ('each call performed on the code and judged by the specification is one case; '
                           'distinct by call, arguments, observation and configuration')
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for what in sorted(self.known_hits):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        self.violations.sort(key=lambda v: v[1]["why"] == "observation")
        for path, sig, exp in self.violations[:10]:
            log('violation:', jdump(sig)[:1500], 'allowed:', jdump(exp)[:800])
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][0]))
            return 1
        print('OK property=%s events=%d episodes=%d states=%d' % (
            self.prop, self.events, self.episodes, self.states))
        return 0
