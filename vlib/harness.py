"""
Runs a check: spreads its cases over worker processes, gathers what the monitors observed, shrinks and saves
violations, writes the evidence.

Verdicts: 0 -- held on everything observed, 1 -- violated (with a VIOLATION line), 2 -- no answer (the
monitors saw too little, or the machinery itself failed).
"""
import ctypes
import hashlib
import json
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from multiprocessing import Value

from . import spec as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
SOFT_WALL = {'quick': 420, 'thorough': 660}
CASE_WALL = 60          # seconds, only decides which cases are repeated under the step counter
NEED_SHARE = .3         # of the numbers in Check.need; with less than that there is no verdict
STEP_LIMIT = 200_000_000
MEM_LIMIT = 3 << 30


class Timeout(BaseException):
    pass


class Steps(BaseException):
    pass


class Problem(Exception):
    """What is wrong with an answer"""


class Rec:
    """What the monitors observed"""
    def __init__(self):
        self.counts = Counter()
        self.cases = {}         # fingerprint of the case -> number of distinct non-trivial evaluations
        self.samples = []

    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)


# ---------------------------------------------------------------------------------------------
# cases as JSON

def dump_inp(inp):
    def conv(x):
        if isinstance(x, S.Spec):
            return {'__spec__': S.to_json(x)}
        if isinstance(x, S.Rep):
            d = dict(x.__dict__)
            d['flagmap'] = sorted(x.flagmap.items())
            return {'__rep__': d}
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items() if not k.startswith('_')}
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        if isinstance(x, bytes):
            return {'__bytes__': x.hex()}
        return x
    return conv(inp)


def load_inp(j):
    if isinstance(j, dict):
        if '__spec__' in j:
            return S.from_json(j['__spec__'])
        if '__rep__' in j:
            d = dict(j['__rep__'])
            d['flagmap'] = {int(k): v for k, v in d['flagmap']}
            return S.Rep(**d)
        if '__bytes__' in j:
            return bytes.fromhex(j['__bytes__'])
        return {k: load_inp(v) for k, v in j.items()}
    if isinstance(j, list):
        return [load_inp(v) for v in j]
    return j


def fingerprint(inp):
    return hashlib.blake2b(json.dumps(dump_inp(inp), sort_keys=True, ensure_ascii=True).encode(), digest_size=8).hexdigest()


# ---------------------------------------------------------------------------------------------
# line coverage of the code under test

class Lines:
    TOOL = 4

    def __init__(self):
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'verif-lines')
        except ValueError:
            return
        prefix = os.path.join(REPO, 'spylls')

        def on_line(code, line):
            if code.co_filename.startswith(prefix):
                self.seen.add((code.co_filename, line))
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def stop(self):
        try:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
        except ValueError:
            pass


def with_steps(limit, fn):
    """Run fn, raising Steps after `limit` executed lines; returns (result, lines)"""
    mon = sys.monitoring
    tool = next(n for n in (3, 5, 0) if mon.get_tool(n) is None)    # calls may be nested
    mon.use_tool_id(tool, 'verif-steps')
    n = 0

    def on_line(code, line):
        nonlocal n
        n += 1
        if n > limit:
            n = -10 ** 15
            raise Steps()
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    try:
        return fn(), n
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


# ---------------------------------------------------------------------------------------------

class Check:
    """
    Base of all checks. `make` produces the input of a case from random numbers only, `judge` runs the code under
    test on it under the monitors and raises Problem. A judged input can be saved and judged again.
    """
    id = ''
    technique = ''
    rule = ''
    quick, thorough = 1000, 4000        # numbers of cases
    need = {}                           # counter -> what is usually observed on the quick tier, at least
    workers = WORKERS
    assumptions = []
    undecided = .001                    # share of cases that may stay without verdict because they take too long

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.scratch = None

    def setup(self):
        """Once, in the parent, before workers are started"""

    def make(self, rng, i):
        raise NotImplementedError

    def judge(self, inp, rec):
        raise NotImplementedError

    def shrinks(self, inp):
        """Smaller inputs to try"""
        return []

    def findings(self):
        """Known defects of the code under test that were observed on this run: [(key, what was observed)]"""
        return []

    def total(self):
        n = self.quick if self.tier == 'quick' else self.thorough
        return max(1, int(n * float(os.environ.get('VERIF_SCALE', '1'))))

    def rng(self, i):
        return random.Random(f'{self.id}/{self.seed}/{i}')


def judge_guarded(check, inp, rec):
    """None, or the text of the problem"""
    try:
        check.judge(inp, rec)
    except Problem as e:
        return str(e)
    return None


def die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass


def worker(check, k, nxt, stop, lates, total, deadline, pipe):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    scratch = os.path.join(check.scratch, f'w{k}')
    os.makedirs(scratch)
    check.scratch = scratch
    rec = Rec()
    lines = Lines()
    lines.start()
    failures, late, error = [], [], None
    done, slowest = 0, (0, 0)

    def on_alarm(_sig, _frame):
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    try:
        while not stop.value and time.monotonic() < deadline:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= total:
                break
            inp = check.make(check.rng(i), i)
            if inp is None:
                rec.count('cases_out_of_domain')
                continue
            signal.setitimer(signal.ITIMER_REAL, CASE_WALL)
            began = time.monotonic()
            try:
                text = judge_guarded(check, inp, rec)
            except Timeout:
                late.append(i)
                text = None
                with lates.get_lock():
                    lates.value += 1
                    if lates.value > 6 + check.undecided * total:
                        stop.value = 1      # no use to go on: these cases decide
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            done += 1
            took = time.monotonic() - began
            slowest = max(slowest, (took, i))
            if text is not None:
                failures.append((i, text))
                if len(failures) >= 2:
                    stop.value = 1
    except BaseException:   # pylint: disable=broad-except
        error = traceback.format_exc()
        stop.value = 1
    lines.stop()
    with os.fdopen(pipe, 'wb') as f:
        pickle.dump(dict(counts=rec.counts, cases=rec.cases, samples=rec.samples, lines=lines.seen, failures=failures,
                         late=late, error=error, done=done, slowest=slowest), f)


def run_workers(check):
    total = check.total()
    nxt, stop, lates = Value('q', 0), Value('i', 0), Value('i', 0)
    deadline = time.monotonic() + SOFT_WALL[check.tier]
    pipes, pids = [], []
    for k in range(min(check.workers, total)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                die_with_parent()
                os.close(r)
                for other in pipes:
                    os.close(other)
                worker(check, k, nxt, stop, lates, total, deadline, w)
                code = 0
            except BaseException:   # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        pipes.append(r)
        pids.append(pid)
    bufs = {fd: b'' for fd in pipes}
    live = set(pipes)
    while live:
        ready, _, _ = select.select(list(live), [], [])
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                bufs[fd] += chunk
            else:
                live.discard(fd)
    for pid in pids:
        os.waitpid(pid, 0)
    out = []
    for fd in pipes:
        os.close(fd)
        out.append(pickle.loads(bufs[fd]) if bufs[fd] else None)
    return out


def in_child(fn, wall):
    """Run fn in a forked child with a wall limit; ('ok', result) | ('timeout', None) | ('error', None) | ('died', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            die_with_parent()
            os.close(r)
            res = fn()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        except BaseException:   # pylint: disable=broad-except
            traceback.print_exc()
            os._exit(70)
        os._exit(0)
    os.close(w)
    buf = b''
    end = time.monotonic() + wall
    res = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            res = ('timeout', None)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    _, status = os.waitpid(pid, 0)
    os.close(r)
    if res:
        return res
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 70:
        return ('error', None)
    return ('ok', pickle.loads(buf)) if buf else ('died', None)


def judge_child(check, inp, wall=60, steps=None):
    """Judge in a child: ('held', None), ('violated', text), ('none', why)"""
    def fn():
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        check.scratch = tempfile.mkdtemp(dir=check.scratch)
        try:
            if steps:
                text, _ = with_steps(steps, lambda: judge_guarded(check, inp, Rec()))
            else:
                text = judge_guarded(check, inp, Rec())
        except Steps:
            return ('violated', f'no answer after {steps} executed lines of Python')
        return ('violated', text) if text is not None else ('held', None)
    st, res = in_child(fn, wall)
    if st == 'ok':
        return res
    return ('none', st)


def shrink(check, inp, text, evals=250, wall=90):
    end = time.monotonic() + wall
    n = 0
    improved = True
    while improved and n < evals and time.monotonic() < end:
        improved = False
        for cand in check.shrinks(inp):
            n += 1
            if n >= evals or time.monotonic() > end:
                break
            st, t = judge_child(check, cand, wall=20)
            if st == 'violated':
                inp, text, improved = cand, t, True
                break
    return inp, text, n


def known_findings(prop):
    """key -> text of the known findings of a property"""
    out = {}
    with open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf-8') as f:
        for line in f:
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(check_class, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    check = check_class(tier, seed)
    scratch = tempfile.mkdtemp(prefix='verif-')
    check.scratch = scratch
    try:
        if '--replay' in argv:
            return replay(check, argv[argv.index('--replay') + 1])
        return run(check, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(check, path):
    with open(path, encoding='utf-8') as f:
        j = json.load(f)
    check.tier, check.seed = j['tier'], j['seed']
    check.setup()
    st, text = judge_child(check, load_inp(j['input']), wall=600, steps=STEP_LIMIT if j.get('steps') else None)
    print(f'{check.id} replay {path}: {st}')
    if text:
        print(text)
    if st == 'violated':
        print(f'VIOLATION property={check.id} replay={path}')
        return 1
    return 0 if st == 'held' else 2


def run(check, scratch):
    t0 = time.monotonic()
    import spylls       # the code under test, from the working tree
    if not os.path.realpath(spylls.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print(f'spylls is imported from {spylls.__file__}, not from {REPO}', file=sys.stderr)
        return 2
    check.setup()
    results = run_workers(check)
    if any(r is None for r in results):
        print('a worker process died', file=sys.stderr)
        return 2
    errors = [r['error'] for r in results if r['error']]
    counts, cases, samples, lines, failures, late, done = Counter(), {}, [], set(), [], [], 0
    for r in results:
        for name, v in r['counts'].items():
            counts[name] = max(counts[name], v) if name.startswith('most ') else counts[name] + v
        cases.update(r['cases'])
        samples += r['samples']
        lines |= r['lines']
        failures += r['failures']
        late += r['late']
        done += r['done']
    found = []
    inconclusive = []
    for i, text in sorted(failures)[:1]:
        inp = check.make(check.rng(i), i)
        st, again = judge_child(check, inp)
        if st == 'violated':
            tried = 0
            try:
                inp, again, tried = shrink(check, inp, again)
            except Exception:   # the violation counts, not how small its example is
                traceback.print_exc()
            found.append((i, inp, again, tried, False))
        else:
            # Seen by the monitor, although it does not repeat in a process of its own: depends on what ran before
            found.append((i, inp, text + '\n(observed in a sequence of cases; the case alone: %s)' % st, 0, False))
    if not found and not errors and len(late) > int(check.undecided * done + .5):
        for i in sorted(late)[:2]:
            inp = check.make(check.rng(i), i)
            st, text = judge_child(check, inp, wall=300, steps=STEP_LIMIT)
            if st == 'violated':
                found.append((i, inp, text, 0, 'executed lines' in text))
                break
            if st == 'none':
                inconclusive.append(f'case {i} did not finish ({text})')
        if len(late) > 2 and not found:
            inconclusive.append(f'{len(late)} cases did not finish in time')
    if errors and not found:
        print(errors[0], file=sys.stderr)
        return 2

    known, stated = [], known_findings(check.id)
    if not found:
        st, seen = in_child(check.findings, 300)
        if st != 'ok':
            inconclusive.append(f'known findings could not be observed ({st})')
        for key, what in seen or []:
            if key in stated:
                known.append(f'{stated[key]} [{key}] ({what})')
            else:
                found.append((-1, dict(finding=key), f'{key}: {what}', 0, False))

    replays = []
    if found:
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, inp, text, tried, steps in found:
            path = os.path.join(rdir, f'{check.id}-{check.tier}-{check.seed}-{i}.json')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(dict(property=check.id, tier=check.tier, seed=check.seed, case=i, problem=text,
                               shrink_evaluations=tried, steps=steps, input=dump_inp(inp)), f, ensure_ascii=True, indent=1, default=repr)
            replays.append(path)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    for name, least in check.need.items():
        least = int(least * min(1, scale) * NEED_SHARE)
        if not found and counts[name] < least:
            inconclusive.append(f'{name}: observed {counts[name]}, need {least}')

    per_file = Counter(os.path.relpath(f, REPO) for f, _ in lines)
    evaluations = counts.pop('evaluations', 0)
    evidence = dict(
        property=check.id, tier=check.tier, seed=check.seed, level='exploration',
        coverage=dict(evaluations=evaluations, distinct_nontrivial=sum(cases.values()), rule=check.rule,
                      samples=samples[:6], cases=done, distinct_cases=len(cases), observed=dict(sorted(counts.items())),
                      repo_lines_executed=dict(sorted(per_file.items())), cases_too_long=len(late)),
        known_findings=known,
        assumptions=check.assumptions, wall_s=round(time.monotonic() - t0, 2), violations=len(found))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{check.id}.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, ensure_ascii=True, indent=1)

    print(f'{check.id} {check.tier} seed={check.seed}: {done} cases, {evaluations} evaluations, '
          f'{sum(cases.values())} distinct non-trivial, {len(lines)} repository lines, {evidence["wall_s"]} s')
    if os.environ.get('VERIF_VERBOSE'):
        print('slowest cases:', sorted(((round(r['slowest'][0], 2), r['slowest'][1]) for r in results), reverse=True)[:4])
    if found:
        for (i, inp, text, tried, _), path in zip(found, replays):
            print(text)
            print(f'VIOLATION property={check.id} replay={path}')
        return 1
    for text in known:
        print(f'KNOWN-FINDING: property={check.id} {text}')
    if inconclusive:
        for text in inconclusive:
            print(f'INCONCLUSIVE property={check.id} {text}')
        return 2
    return 0
