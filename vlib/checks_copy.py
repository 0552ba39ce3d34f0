"""Check of dictionaries copied, stored and restored (R03)"""
import copy
import gc
import json
import os
import pickle
import shutil
import subprocess
import sys

from . import spec as S
from .checks_load import RICH
from .checks_suggest import SUG
from .checks_total import History, answer, canon, cheap, problem_safe, public, run_child
from .common import load
from .gen import profile
from .harness import Problem, VERIF
from .model import Model

WAYS = ['deep copy', 'pickle 2', 'pickle 3', 'pickle 4', 'pickle 5', 'deep copy of a restored one', 'shallow copy']


def copied(d, way):
    try:
        if way == 'deep copy':
            return copy.deepcopy(d)
        if way == 'shallow copy':
            return copy.copy(d)
        if way == 'deep copy of a restored one':
            return copy.deepcopy(pickle.loads(pickle.dumps(d)))
        return pickle.loads(pickle.dumps(d, int(way.split()[1])))
    except Exception as e:      # pylint: disable=broad-except
        raise Problem(f'{way}: {type(e).__name__}: {e}') from None


class R03(History):
    id = 'R03'
    technique = 'differential monitor: a dictionary and its copies, here and in another process'
    rule = ('A case is a batch of dictionaries with questions; each dictionary is asked some of them, copied in two ways, dropped, and stored in '
            'a file that another interpreter process (with another hash seed, the dictionary files being removed) reads. An evaluation is the '
            'comparison of one answer, or of the data, of a copy with that of a dictionary that was only loaded; it is non-trivial if the '
            'answer is True or a non-empty list.')
    profiles = [(profile(**dict(RICH, words=(3, 12))), 3), (profile(**dict(SUG, rep=.3, ph=.3, map=.3, phone=.3, words=(5, 14))), 3),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .7), words=(4, 10))), 1), (profile(**dict(RICH, german=.5, turkic=.4, cap=.6, words=(3, 9))), 2),
                (profile(cap=.7, words=(4, 10), sfx=(1, 4), pfx=(1, 3)), 2)]
    quick, thorough = 160, 1200
    per_case = 6
    need = {'evaluations': 25000, 'compared: suggest': 5000, 'compared: lookup': 5000, 'compared: forms': 2500, 'compared: data': 2000,
            'answers of the original after its copies were used': 6000, 'answers in another process': 6000, 'copied after questions': 400,
            'copied before any question': 200}
    for _w in WAYS:
        need[f'way: {_w}'] = 120

    def make(self, rng, i):
        dicts = [x for x in (self.make_one(rng, 10, 6) for _ in range(self.per_case)) if x and x['ops']]
        for x in dicts:
            stems = [e.stem for e in x['spec'].words if not e.stem.isupper() and len(e.stem) < 12]
            stems = sorted(rng.sample(stems, min(20, len(stems))), key=lambda w: w[1:] == w[1:].lower())        # capitals inside first
            x['ops'] += [['lookup', w, None] for w in cheap(Model(x['spec']), [w.upper() for w in stems[:3]], 0)[0]]
            x['before'] = sorted(rng.sample(range(len(x['ops'])), rng.choice([0, 1, len(x['ops']) // 2, len(x['ops'])])))
            x['ways'] = rng.sample(WAYS, 2)
            x['protocol'] = rng.choice([2, 3, 4, 5])
        return dict(dicts=dicts, seed=rng.randrange(1, 2 ** 32), _model=None) if dicts else None

    def judge(self, inp, rec):
        n, counts = run_child(problem_safe(lambda: self.run(inp)))
        for k, v in counts.items():
            rec.count(k, v)
        if '_model' in inp:
            rec.cases[repr([x['ops'] for x in inp['dicts']])] = n
        rec.sample(dict(questions=inp['dicts'][0]['ops'][:4], ways=inp['dicts'][0]['ways']))

    def run(self, inp):
        counts = {}

        def count(what, n=1):
            counts[what] = counts.get(what, 0) + n
        folder = os.path.join(self.scratch, 'c')
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        hard = 0

        def compare(op, got, want, what):
            nonlocal hard
            count('evaluations')
            count(f'compared: {op[0]}')
            hard += bool(want)
            if got != want:
                raise Problem(f'{op[0]}({op[1]!r}) is {got!r} {what}, {want!r} otherwise')

        def compare_data(got, want, what):
            count('evaluations')
            count('compared: data')
            if got != want:
                raise Problem(f'data differ {what}')
        jobs, wanted = [], []
        for k, x in enumerate(inp['dicts']):
            path = os.path.join(folder, f'd{k}')
            S.write(x['spec'], x['rep'], path)
            ops = x['ops']
            d = load(path)
            data = canon(public(d))
            want = [answer(d, op) for op in ops]
            d = load(path)
            for j in x['before']:
                answer(d, ops[j])
            count('copied after questions' if x['before'] else 'copied before any question')
            for way in x['ways']:
                c = copied(d, way)
                count(f'way: {way}')
                if way == x['ways'][1]:
                    del d       # the copy has to do without
                    gc.collect()
                compare_data(canon(public(c)), data, f'after {way}')
                for op, w in zip(ops, want):
                    compare(op, answer(c, op), w, f'after {way}')
                if way == x['ways'][0]:
                    for op, w in zip(ops, want):
                        compare(op, answer(d, op), w, f'of the original after {way}')
                        count('answers of the original after its copies were used')
            try:
                with open(path + '.pickle', 'wb') as f:
                    pickle.dump(c, f, x['protocol'])
            except Exception as e:      # pylint: disable=broad-except
                raise Problem(f'stored: {type(e).__name__}: {e}') from None
            os.remove(path + '.aff')
            os.remove(path + '.dic')
            jobs.append([path + '.pickle', ops])
            wanted.append((json.loads(json.dumps(data)), json.loads(json.dumps(want))))
        job = os.path.join(folder, 'job.json')
        with open(job, 'w', encoding='ascii') as f:
            json.dump(jobs, f)
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'vlib', 'asker.py'), job], env={**os.environ, 'PYTHONHASHSEED': str(inp['seed'])},
                           cwd=folder, timeout=100, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
        if p.returncode != 0:
            raise RuntimeError(f'asker failed: {p.stderr.decode()[-2000:]}')
        for (_, ops), got, (data, want) in zip(jobs, json.loads(p.stdout), wanted):
            if got['error']:
                raise Problem(f'restored in another process: {got["error"]}')
            compare_data(got['data'], data, 'restored in another process')
            for op, a, w in zip(ops, got['answers'], want):
                compare(op, a, w, 'restored in another process')
                count('answers in another process')
        return hard, counts

    def shrinks(self, inp):
        def with_(**kw):
            c = {k: v for k, v in inp.items() if not k.startswith('_')}
            c.update(kw)
            return c
        ds = inp['dicts']
        if len(ds) > 1:
            for x in ds:
                yield with_(dicts=[x])
        if len(ds) == 1:
            x = ds[0]
            for j in range(len(x['ops'])):
                if len(x['ops']) > 1:
                    yield with_(dicts=[dict(x, ops=x['ops'][:j] + x['ops'][j + 1:], before=[])])
            if x['before']:
                yield with_(dicts=[dict(x, before=[])])
            for j in range(len(x['spec'].words)):
                c = S.copy(x['spec'])
                del c.words[j]
                yield with_(dicts=[dict(x, spec=c)])
