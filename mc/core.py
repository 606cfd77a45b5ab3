# -*- coding: utf-8 -*-
"""Bounded exhaustive exploration of the real ngoschema code against reference models.

Everything a check does goes through `Check`:

* `chk.case(name, params, fn)`  one closed execution.  `fn()` runs the real code and raises
  `Mismatch` (through `chk.eq` & co) when the implementation disagrees with the reference.
  Any other exception that escapes the case is reported as a violation as well: cases catch
  every exception the reference allows.
* `explore_sequences(...)`      every operation sequence over a finite alphabet up to a depth.
  Each sequence is one execution: a *fresh* real object and a fresh model, every operation's
  outcome compared, and the complete observation compared at the end of the sequence.  As all
  prefixes are sequences of their own, every intermediate state is observed too, but without
  the observation of a prefix disturbing (e.g. warming the caches of) its extensions.

The space of a check is always enumerated completely; work is only split over processes.
"""
import hashlib
import itertools
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replay')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
CASE_TIMEOUT = 120.0
NPROC = max(1, min(8, os.cpu_count() or 1))


class Mismatch(Exception):
    """The implementation and the reference disagree."""


class CaseTimeout(BaseException):
    """The case did not terminate."""


def _alarm(signum, frame):
    raise CaseTimeout('no answer within %ss' % CASE_TIMEOUT)


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as er:  # a repr of the implementation that fails is not the point here
        s = '<unprintable %s>' % type(er).__name__
    return s if len(s) <= n else s[:n] + '...'


def outcome(fn, *args, **kw):
    """('ok', value) or ('err', exception)"""
    try:
        return 'ok', fn(*args, **kw)
    except Exception as er:
        return 'err', er


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        if isinstance(x, dict):
            return {str(k): jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [jsonable(i) for i in x]
        return short(x)


def typed(x):
    """value with the exact class of its leaves, so that 1, True, 1.0 and '1' are all different"""
    from collections.abc import Mapping
    if isinstance(x, Mapping):
        return ('map', tuple(sorted(((str(k), typed(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)) or (hasattr(x, '__iter__') and hasattr(x, 'insert')):
        return ('seq', tuple(typed(i) for i in x))
    return (type(x).__name__, repr(x))


class Stats:
    def __init__(self):
        self.cases = 0
        self.transitions = 0
        self.states = set()
        self.groups = {}
        self.samples = []

    def state(self, s):
        self.states.add(hashlib.md5(repr(s).encode('utf-8', 'replace')).digest()[:8])

    def merge(self, o):
        self.cases += o.cases
        self.transitions += o.transitions
        self.states |= o.states
        for k, v in o.groups.items():
            self.groups[k] = self.groups.get(k, 0) + v
        have = {s['group'] for s in self.samples}
        for s in o.samples:
            if s['group'] not in have:
                have.add(s['group'])
                self.samples.append(s)


class Check:
    def __init__(self, pid, tier, seed, replay=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.stats = Stats()
        self.violations = []       # dicts
        self.t0 = time.time()
        self.assumptions = []
        self.bounds = {}
        self.level = 'model_checking'
        self.replay = replay       # only run the case with this key
        self.max_violations = 40
        self._sampled = {}

    # ---------------------------------------------------------------- oracle helpers
    def eq(self, got, want, what=''):
        if got is want:
            return
        if typed(got) != typed(want):
            raise Mismatch('%s: got %s, expected %s' % (what, short(got), short(want)))

    def same(self, got, want, what=''):
        if not (got == want):
            raise Mismatch('%s: got %s, expected %s' % (what, short(got), short(want)))

    def true(self, cond, what=''):
        if not cond:
            raise Mismatch(what)

    def raises(self, fn, exc, what=''):
        k, v = outcome(fn)
        if k == 'ok':
            raise Mismatch('%s: no exception, got %s' % (what, short(v)))
        if exc is not None and not isinstance(v, exc):
            raise Mismatch('%s: raised %s instead of %s' % (what, short(v), exc))
        return v

    # ---------------------------------------------------------------- one execution
    def key(self, group, params):
        return '%s|%s' % (group, short(params, 2000))

    def case(self, group, params, fn, transitions=1, state=None):
        key = self.key(group, params)
        if self.replay is not None and self.replay != key:
            return
        st = self.stats
        st.cases += 1
        st.transitions += transitions
        st.groups[group] = st.groups.get(group, 0) + 1
        n = self._sampled.get(group, 0)
        if n < 1 or self.replay is not None:
            self._sampled[group] = n + 1
            st.samples.append({'group': group, 'case': jsonable(short(params, 1500))})
        try:
            signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
            try:
                res = fn()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            st.state((group, state if state is not None else (res if res is not None else params)))
        except CaseTimeout as er:
            self.violate(group, params, 'TIMEOUT: %s' % er, key)
        except Mismatch as er:
            self.violate(group, params, str(er), key)
        except Exception as er:
            self.violate(group, params, 'unexpected %s: %s\n%s' % (
                type(er).__name__, short(er), short(traceback.format_exc(), 3000)), key)

    def violate(self, group, params, what, key=None):
        self.violations.append({'group': group, 'key': key or self.key(group, params),
                                'case': jsonable(params), 'what': what})
        if len(self.violations) >= self.max_violations:
            raise TooMany()

    # ---------------------------------------------------------------- parallel split
    def parallel(self, jobs):
        """jobs: list of callables(chk) -- each explores a part of the space."""
        if self.replay is not None or NPROC == 1 or len(jobs) == 1:
            for j in jobs:
                try:
                    j(self)
                except TooMany:
                    return
            return
        # jobs are dealt out statically (deterministic), one forked worker per slot
        n = min(NPROC, len(jobs))
        sys.stdout.flush()
        ctx = multiprocessing.get_context('fork')
        procs = []
        for w in range(n):
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(self, jobs[w::n], wr))
            p.start()
            wr.close()
            procs.append((p, rd))
        for w, (p, rd) in enumerate(procs):
            try:
                res = rd.recv()
            except EOFError:
                # the interpreter of a worker died (a JIT assertion of PyPy, memory): its jobs are run
                # again without JIT, alone, before anything is concluded
                p.join()
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=_worker, args=(self, jobs[w::n], wr, False))
                p.start()
                wr.close()
                try:
                    res = rd.recv()
                except EOFError:
                    res = (Stats(), [{'group': 'worker', 'key': 'worker', 'case': None,
                                      'what': 'an exploration process ended without a result, twice'}])
            self.stats.merge(res[0])
            self.violations += res[1]
            p.join()


class TooMany(Exception):
    pass


def _worker(chk, jobs, wr, jit=True):
    if not jit:
        try:
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass
    chk.stats = Stats()
    chk.violations = []
    try:
        for j in jobs:
            j(chk)
    except TooMany:
        pass
    except BaseException as er:
        chk.violations.append({'group': 'harness', 'key': 'harness|%s' % type(er).__name__, 'case': None,
                               'what': 'unexpected %s: %s\n%s' % (type(er).__name__, short(er), traceback.format_exc())})
    wr.send((chk.stats, chk.violations))
    wr.close()
    sys.stdout.flush()
    os._exit(0)


def explore_sequences(chk, group, alphabet, depth, run, min_depth=0, split=1, allowed=None):
    """Enumerate every sequence over `alphabet` of length min_depth..depth.

    `run(seq)` builds a fresh system, executes the sequence comparing with the model and returns a
    canonical final state.  `allowed(seq)` prunes sequences that are not closed executions of the
    driver (e.g. a use before its creation).  Returns the list of jobs (to give to chk.parallel).
    """
    alphabet = list(alphabet)

    def job_for(first):
        def job(c):
            lo = max(min_depth, len(first))
            for n in range(lo, depth + 1):
                for rest in itertools.product(alphabet, repeat=n - len(first)):
                    seq = tuple(first) + rest
                    if allowed is not None and not allowed(seq):
                        continue
                    c.case(group, seq, lambda: run(seq), transitions=len(seq) or 1)
        return job

    jobs = []

    def short_job(c):
        for n in range(min_depth, min(split, depth + 1)):
            for seq in itertools.product(alphabet, repeat=n):
                if allowed is None or allowed(seq):
                    c.case(group, seq, lambda: run(seq), transitions=len(seq) or 1)
    jobs.append(short_job)
    if depth >= split:
        for first in itertools.product(alphabet, repeat=split):
            jobs.append(job_for(first))
    return jobs


def chunked(chk, items, fn, n=NPROC * 4):
    """split a list of items into jobs; fn(chk, item) registers cases"""
    items = list(items)

    def mk(part):
        def job(c):
            for it in part:
                fn(c, it)
        return job
    return [mk(items[i::n]) for i in range(n) if items[i::n]]


# -------------------------------------------------------------------- known findings
def load_known(pid):
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or not line.startswith('{'):
                    continue
                k = json.loads(line)
                if k.get('property') == pid and k.get('status') == 'known':
                    res.append(k)
    return res


def finish(chk):
    known = load_known(chk.pid)
    new, seen_known = [], {}
    for v in chk.violations:
        for k in known:
            if k['key'] == v['key']:
                seen_known[k['key']] = k
                break
        else:
            new.append(v)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (chk.pid, k['what']))
    os.makedirs(REPLAYS, exist_ok=True)
    for old in os.listdir(REPLAYS):
        if old.startswith(chk.pid + '-'):
            os.unlink(os.path.join(REPLAYS, old))
    # the shortest counterexample first
    new.sort(key=lambda v: (len(str(v['case'])), v['key']))
    lines = []
    for i, v in enumerate(new[:5]):
        path = os.path.join(REPLAYS, '%s-%d.json' % (chk.pid, i))
        with open(path, 'w') as f:
            json.dump(dict(v, property=chk.pid, tier=chk.tier, seed=chk.seed,
                           how='/verif/check.sh %s %s --replay %s' % (chk.pid, chk.tier, path)), f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (chk.pid, path))
        print('--- %s' % v['group'])
        print('case: %s' % short(v['case'], 1200))
        print('what: %s' % short(v['what'], 1500))
    st = chk.stats
    ev = {
        'property': chk.pid, 'tier': chk.tier, 'seed': chk.seed, 'level': chk.level,
        'coverage': {
            'states': len(st.states), 'transitions': st.transitions,
            'traces_validated_against_impl': st.cases,
            'exhaustive': chk.replay is None,
            'explanation': 'every case of the stated finite space was executed on the real code and compared with the reference; '
                           'states = distinct canonical final observations, transitions = operations executed, '
                           'traces = complete executions compared with the model',
            'executions_per_group': st.groups,
            'bounds': chk.bounds,
            'samples': st.samples[:12],
        },
        'assumptions': chk.assumptions,
        'wall_s': round(time.time() - chk.t0, 2),
        'violations': len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    if chk.replay is None:
        with open(os.path.join(EVIDENCE, chk.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: executions=%d transitions=%d states=%d violations=%d known=%d wall=%.1fs' % (
        chk.pid, chk.tier, st.cases, st.transitions, len(st.states), len(new), len(seen_known), ev['wall_s']))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if new else 0


def main(pid, fn, tier, seed, replay=None):
    signal.signal(signal.SIGALRM, _alarm)
    chk = Check(pid, tier, seed, replay)
    try:
        fn(chk)
    except TooMany:
        pass
    except Exception as er:
        chk.violations.append({'group': 'setup', 'key': 'setup|%s' % type(er).__name__, 'case': None,
                               'what': 'the driver could not be set up on this code: unexpected %s: %s\n%s' % (
                                   type(er).__name__, short(er), traceback.format_exc())})
    if not chk.violations and replay is None and (chk.stats.cases == 0 or len(chk.stats.states) < 2):
        chk.violations.append({'group': 'vacuous', 'key': 'vacuous', 'case': None, 'what': 'nothing was explored'})
    return finish(chk)
