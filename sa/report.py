"""Obligation bookkeeping, known findings, evidence, and the exit protocol."""
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from contextlib import contextmanager

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')


class Broken(Exception):
    """the analysis lost its anchor: neither holds nor violated"""


class Enough(BaseException):
    """the time a piece of work was given is over"""


# what ends the analysis of one construct, which is then undecided
FAILS = (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, MemoryError, Enough)
DEADLINE = time.time() + 800
GB = 1 << 30


def over(signum, frame):
    raise Enough('out of time')


@contextmanager
def within(seconds):
    """an alarm inside the alarms already set"""
    t0 = time.time()
    seconds = max(0.1, min(seconds, DEADLINE + 40 - t0))
    handler = signal.signal(signal.SIGALRM, over)
    left, _ = signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(0.01, left - (time.time() - t0)) if left else 0)
        signal.signal(signal.SIGALRM, handler)


def atmost(size):
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard == resource.RLIM_INFINITY or hard > size:
        resource.setrlimit(resource.RLIMIT_AS, (size, hard))


def attempt(ctx, unit, f, seconds=120):
    """the analysis of one construct"""
    try:
        with within(seconds):
            return f()
    except FAILS as e:
        ctx.undecided(unit, f'analysis failed: {type(e).__name__} {e}'[:160])
        return None


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.ok = []
        self.bad = {}
        self.und = {}
        self.units = []
        self.notes = []
        self.rules = {}
        self.files = set()
        self.floor = 1

    # an obligation is a rule instance; `key` names rule + construct
    def discharge(self, key):
        self.ok.append(key)

    def violation(self, key, text, where=None):
        self.bad.setdefault(key, (text, where))

    def undecided(self, key, why):
        self.und.setdefault(key, why)

    def unit(self, name):
        self.units.append(name)

    def rule(self, name, text):
        self.rules[name] = text

    def settle(self, key, verdict, what, where=None):
        """record a three-valued judgement"""
        if verdict == 'ok':
            self.discharge(key)
        elif verdict[0] == 'bad':
            self.violation(key, f'{what}: {verdict[1]}', where)
        else:
            self.undecided(key, f'{what}: {verdict[1]}')

    def total(self):
        return len(set(self.ok)) + len(self.bad) + len(self.und)


def fan(ctx, jobs, workers=6):
    """run jobs (functions of a context) in forked processes; their records are merged in order"""
    pipes = []
    workers = max(1, min(workers, len(jobs)))
    sys.stdout.flush()
    for w in range(workers):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            out = []
            atmost(4 * GB)
            try:
                for i in range(w, len(jobs), workers):
                    sub = Ctx(ctx.pid)
                    try:
                        with within(DEADLINE - time.time()):
                            jobs[i](sub)
                    except (MemoryError, Enough) as e:
                        sub.undecided(f'job {i}', f'not finished: {type(e).__name__}')
                    out.append((i, sub.ok, sub.bad, sub.und, sub.units, sub.notes, sub.rules))
                data = pickle.dumps(out)
            except Broken as e:
                data = pickle.dumps(str(e))
            except BaseException:
                data = pickle.dumps('failed: ' + traceback.format_exc()[-1500:])
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
            os._exit(0)
        os.close(wr)
        pipes.append((pid, rd))
    res = {}
    fail = None
    for pid, rd in pipes:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out = pickle.loads(data) if data else 'a worker ended early'
        if isinstance(out, str):
            fail = fail or out
        else:
            res.update({o[0]: o[1:] for o in out})
    if fail:
        raise Broken(fail)
    for i in sorted(res):
        ok, bad, und, units, notes, rules = res[i]
        ctx.ok += ok
        for k, v in bad.items():
            ctx.bad.setdefault(k, v)
        for k, v in und.items():
            ctx.und.setdefault(k, v)
        ctx.units += units
        ctx.notes += notes
        ctx.rules.update(rules)


def known_for(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.rstrip('\n')
            if line.startswith('finding: '):
                rest = line[len('finding: '):]
                head, _, text = rest.partition(' :: ')
                parts = dict(p.split('=', 1) for p in head.split(' ', 1)) if False else {}
                p, _, key = head.partition(' key=')
                if p == f'property={pid}':
                    out[key.strip()] = text.strip()
    return out


def finish(ctx):
    pid = ctx.pid
    known = known_for(pid)
    new = {k: v for k, v in ctx.bad.items() if k not in known}
    hit = {k: v for k, v in ctx.bad.items() if k in known}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    n = ctx.total()
    cov = {
        'explanation': 'Static analysis of the current source; every obligation is one rule instance '
                       '(rule + construct). discharged: the computed dataflow facts entail the rule; '
                       'undecided: the analysis could not resolve the construct (never reported); '
                       'violated: the facts contradict the rule.',
        'obligations': n,
        'discharged': len(set(ctx.ok) - set(ctx.bad)),
        'undecided': len(ctx.und),
        'known_findings': len(hit),
        'violated': len(new),
        'rules': ctx.rules,
        'units_analysed': len(ctx.units),
        'units': ctx.units[:400],
        'undecided_instances': [f'{k}: {v}'[:300] for k, v in list(ctx.und.items())[:60]],
        'notes': ctx.notes[:60],
        'samples': sorted(set(ctx.ok))[:25],
        'checker_cmd': f'python3 check.py {pid}',
        'trusted_base': ['the abstract interpreter in /verif/sa and its models of numpy/struct/io calls',
                         'the reference tables in /verif/spec'],
    }
    ev = {'property': pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(new),
          'assumptions': ['CPython 3 semantics; integers unbounded, numpy/struct behave as documented']}
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    for k, (text, where) in sorted(hit.items()):
        print(f'KNOWN-FINDING: property={pid} {k}: {known[k]}')
    if new:
        path = os.path.join(HERE, 'evidence', f'{pid}.violation.txt')
        with open(path, 'w', encoding='utf-8') as f:
            for k, (text, where) in sorted(new.items()):
                f.write(f'{k}\n    {text}\n    at {where}\n')
        for k, (text, where) in sorted(new.items())[:20]:
            print(f'  {k}: {text}'[:600] + (f'  [{where}]' if where else ''))
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if len(set(ctx.ok)) < ctx.floor:
        print(f'analysis broken: property={pid} only {len(set(ctx.ok))} obligations discharged of {n}, '
              f'floor {ctx.floor}; first undecided: {list(ctx.und.items())[:3]}')
        return 3
    print(f'ok property={pid}: {len(set(ctx.ok))} of {n} obligations discharged, {len(ctx.und)} undecided, '
          f'{len(hit)} known findings, {len(ctx.units)} units, {time.time() - ctx.t0:.1f}s')
    return 0


def main(pid, run):
    sys.setrecursionlimit(20000)
    ctx = Ctx(pid)
    atmost(16 * GB)
    try:
        with within(DEADLINE + 40 - time.time()):
            run(ctx)
    except (MemoryError, Enough) as e:
        ctx.undecided('the rest', f'not finished: {type(e).__name__}')
    except Broken as e:
        print(f'analysis broken: property={pid} {e}')
        return 3
    return finish(ctx)
