"""Check of the amount of work (T03)"""
import enum
import os
import random
import re
import sys

from . import spec as S
from .checks_load import Metamorphic, RICH
from .common import SpecCheck, guarded, load
from .gen import profile
from .harness import Problem

# letters of words nobody asks for
FOREIGN = ''.join(map(chr, range(0x561, 0x57b)))

# whether patterns are compiled or remembered depends on what was compiled before
COMPILING = (os.path.dirname(re.__file__), enum.__file__)


def work(fn):
    """Lines, jumps and resumptions of generators executed by a call, without the compilation of regular expressions"""
    mon = sys.monitoring
    tool = next(n for n in (3, 5, 0) if mon.get_tool(n) is None)
    mon.use_tool_id(tool, 'verif-work')
    n = 0

    def count(code, *_):
        nonlocal n
        if code.co_filename.startswith(COMPILING):
            return mon.DISABLE
        n += 1
    events = mon.events.LINE | mon.events.JUMP | mon.events.PY_RESUME | mon.events.PY_START
    for e in (mon.events.LINE, mon.events.JUMP, mon.events.PY_RESUME, mon.events.PY_START):
        mon.register_callback(tool, e, count)
    mon.set_events(tool, events)
    try:
        res = fn()
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
    return res, n


class T03(Metamorphic):
    id = 'T03'
    technique = 'work monitor: executed lines and jumps in dictionaries of growing size'
    rule = ('A case is a generated dictionary, the same with some hundred unrelated entries and affix rules, and with twice as many. An '
            'evaluation is the comparison of the work (executed lines, jumps, generator steps) of one call in these dictionaries; it is '
            'non-trivial if the call did more than 100 steps. Unrelated entries and rules contain letters that no word asked contains.')
    profiles = [(profile(**dict(RICH, ph=0.)), 3), (profile(**dict(RICH, ph=0., COMPOUNDFLAG=(.9, .6), crules=.3, COMPOUNDMIN=.9, stem=(1, 4))), 1)]
    sizes = [('', 1)]
    fixtures = 0
    bundled = 0
    nwords = 8
    nsug = 2
    maxlen = 8
    quick, thorough = 320, 2600
    need = {'evaluations': 5000, 'lookups': 2000, 'analyses': 2000, 'corrections': 500, 'similarity guesses': 250, 'loads': 300}

    def variants(self, rng, inp):
        inp['n'] = rng.randint(500, 900)
        inp['gseed'] = rng.randrange(10 ** 9)
        inp['what'] = rng.choice(['entries', 'entries', 'rules', 'both'])

    def shrinks(self, inp):
        return SpecCheck.shrinks(self, inp)

    def accepts(self, spec):
        return not set(FOREIGN) & set(''.join(spec.strs.values()))

    def grown(self, inp, times):
        """The dictionary with unrelated entries and rules"""
        rng = random.Random(inp['gseed'])
        spec = S.copy(inp['spec'])
        flags = sorted({f for e in spec.words for f in e.flags})
        one = rng.random() < .2

        def text(lo, hi):
            return ''.join(rng.choice(FOREIGN) for _ in range(rng.randint(lo, hi)))
        near = rng.random() < .5 and inp['words']
        for k in range(inp['n'] * times if inp['what'] != 'rules' else 0):
            stem = FOREIGN[:5] if one and k % 3 == 0 else text(4, 8)
            if near and rng.random() < .5:
                # the beginning of a word that is asked, then other letters
                start = ''.join(c for c in rng.choice(near)[:4] if c.isalpha())
                stem = start + stem[:6]
            spec.words.append(S.Entry(stem, tuple(rng.sample(flags, min(len(flags), rng.randint(0, 2)))), []))
        if spec.affixes and inp['what'] != 'entries':
            for k in range(inp['n'] * times // 2):
                a = rng.choice(spec.affixes)
                add = text(2, 5)
                if near and rng.random() < .7:
                    # what is at the edge of the word does not make it an affix of the word
                    w = ''.join(c for c in rng.choice(near) if c.isalpha())
                    add = w[:2] + add if a.kind == 'P' else add + w[-2:]
                a.rules.append(S.Rule(text(0, 1), add, [], ()))
        return spec

    def judge(self, inp, rec):
        n, ds, loads = 0, [], []
        added = inp['what'] if inp['what'] != 'both' else 'entries and rules'
        for times in (0, 1, 2):
            spec = self.grown(inp, times)
            d = []
            for guesses in (True, False):
                if not guesses:
                    spec.ints['MAXNGRAMSUGS'] = 0
                    spec.phone = None
                path = f'{self.scratch}/d{times}{guesses:d}'
                S.write(spec, inp['rep'], path)
                res, steps = work(lambda: load(path))
                d.append(res)
                if not guesses:
                    loads.append(steps)
            ds.append(d)

        def constant(what, kind, fn, k):
            """No more work in larger dictionaries"""
            nonlocal n
            for d in ds:
                guarded(what, lambda: fn(d[k]))     # whatever is prepared on the first call
            steps = [work(lambda: guarded(what, lambda: fn(d[k])))[1] for d in ds]
            rec.count('evaluations')
            rec.count(kind)
            n += steps[0] > 100
            for s, t in zip(steps[1:], (1, 2)):
                if s > 1.25 * steps[0] + 300:
                    raise Problem(f'{what} takes {s} steps after {inp["n"] * t} unrelated {added} were added, {steps[0]} before')

        def linear(what, kind, steps):
            rec.count('evaluations')
            rec.count(kind)
            if steps[2] - steps[1] > 1.5 * (steps[1] - steps[0]) + 3000:
                raise Problem(f'{what} takes {steps[0]} steps, {steps[1]} and {steps[2]} after {inp["n"]} and twice as many unrelated {added} were added')
        linear('loading', 'loads', loads)
        for w in inp['words']:
            constant(f'lookup({w!r})', 'lookups', lambda d: d.lookup(w), 0)
            constant(f'good_forms({w!r})', 'analyses', lambda d: list(d.lookuper.good_forms(w)), 0)
        for w in inp['sug']:
            constant(f'suggest({w!r}) without guesses', 'corrections', lambda d: list(d.suggest(w)), 1)
            if inp['what'] == 'entries':
                linear(f'suggest({w!r})', 'similarity guesses',
                       [work(lambda: guarded(f'suggest({w!r})', lambda: list(d[0].suggest(w))))[1] for d in ds])
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:5], added=inp['n'], loading=loads))
