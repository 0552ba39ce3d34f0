"""Check of the bundled dictionaries in full size (W01)"""
import os
import random

from . import spec as S
from .common import guarded, ask, ask_kinds, load
from .fixtures import bundled
from .gen import WordGen
from .harness import Check, Problem
from .model import Model, TooExpensive
from .sugmodel import SugModel

GUESS = ('ngram', 'phonet', 'dashes')
_made = {}


def made(key, fn):
    """Made once per process"""
    if key not in _made:
        _made[key] = fn()
    return _made[key]


def in_full(name):
    def read():
        from spylls.hunspell import Dictionary
        d = guarded(f'loading {name}', lambda: Dictionary.from_files(name))
        spec = made(('spec', name), lambda: bundled(name))
        got = [(w.stem, len(w.flags)) for w in d.dic.words]
        want = [(e.stem, len(set(e.flags))) for e in spec.words]
        if got != want:
            k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Problem(f'{name}: entry {k} is {got[k:k + 1]} of {len(got)}, written {want[k:k + 1]} of {len(want)}')
        return d
    return made(('full', name), read)


class W01(Check):
    id = 'W01'
    technique = 'reference-model monitor on the bundled dictionaries'
    rule = ('A case is the complete English dictionary, or the Russian or Swedish one and some thousand of its entries in a row, with words. '
            'An evaluation is the comparison of one verdict or one list of suggestions with the reference model (for complete Russian and '
            'Swedish dictionaries: what a part of the entries permits is accepted); it is non-trivial if the word is not an entry.')
    quick, thorough = 96, 900
    cap = 1500
    assumptions = ['the bundled files are read by an independent reader, which is also used for the fixtures']
    need = {'evaluations': 15000, 'accepted': 6000, 'rejected': 5000, 'forms accepted by the complete dictionary': 2500, 'suggestion lists': 250,
            'corrections': 400, 'guesses': 150, 'en_US': 40, 'ru': 20, 'sv_SE': 20}

    def setup(self):
        # shared by the workers
        for name in ('en_US', 'ru', 'sv_SE'):
            made(('spec', name), lambda: bundled(name))
        self.model(dict(name='en_US', start=None))

    def spec(self, inp):
        spec = made(('spec', inp['name']), lambda: bundled(inp['name']))
        if inp['start'] is None:
            return spec
        part = made(('without entries', inp['name']), lambda: self.without_entries(spec))
        part = S.copy(part)
        part.words = spec.words[inp['start']:inp['start'] + inp['count']]
        return part

    def without_entries(self, spec):
        words, spec.words = spec.words, []
        try:
            return S.copy(spec)
        finally:
            spec.words = words

    def model(self, inp):
        if inp['start'] is None:
            return made(('model', inp['name']), lambda: Model(self.spec(inp)))
        key = inp['name'], inp['start'], inp['count']
        if _made.get('part', (None,))[0] != key:
            _made['part'] = key, Model(self.spec(inp))
        return _made['part'][1]

    def by_rule(self, m):
        """Some forms for each affix rule"""
        out = {}
        for text, anas in m.table.items():
            for a in anas:
                for x in (a.p2, a.p, a.s, a.s2):
                    if x is not None and len(text) <= 25:
                        forms = out.setdefault(id(x), [])
                        if len(forms) < 50:
                            forms.append(text)
        return list(out.values())

    def make(self, rng, i):
        name = rng.choice(['en_US', 'en_US', 'ru', 'sv_SE'])
        inp = dict(name=name, start=None, count=0)
        if name != 'en_US':
            inp['count'] = rng.randint(300, 1500)
            inp['start'] = rng.randrange(len(made(('spec', name), lambda: bundled(name)).words) - inp['count'])
        m = self.model(inp)
        m.limit(20000)
        wg = WordGen(rng, self.spec(inp), m)
        inp['words'] = wg.words(250, [('form', 6), ('wrong', 3), ('compound', 1.5), ('mutant', 4), ('broken', .5), ('low', .5)], 20)
        # every affix rule, also those of few entries
        rules = self.by_rule(m) if inp['start'] is not None else made(('rules', name), lambda: self.by_rule(m))
        inp['words'] += [rng.choice(rng.choice(rules)) for _ in range(60) if rules]
        if name == 'en_US':
            # made by compound rules
            inp['words'] += [f'{rng.randrange(10 ** rng.randint(1, 14))}{rng.choice(["st", "nd", "rd", "th", "ts"])}' for _ in range(20)]
        inp['sug'] = []
        sm = SugModel(m)
        for _ in range(30):
            w = wg.mutate(rng.choice(wg.stems))
            m.limit(30000)
            try:
                sm.corrections(w)
            except TooExpensive:
                continue
            inp['sug'].append(w)
            if len(inp['sug']) == 4:
                break
        inp['_stems'] = set(wg.stems)
        return inp

    def judge(self, inp, rec):
        m = self.model(inp)
        full = in_full(inp['name'])
        d = full
        rec.count(inp['name'])
        if inp['start'] is not None:
            path = os.path.join(self.scratch, 'd')
            spec = self.spec(inp)
            S.write(spec, S.default_rep(spec, random.Random(1), 'num'), path)
            d = load(path)
        forbidden = m.F['FORBIDDENWORD']
        bad = made(('forbidden', inp['name']), lambda: {e.stem.lower() for e in made(('spec', inp['name']), None).words if forbidden in e.flags}
                   if forbidden is not None else set())
        n = 0
        for w in inp['words']:
            m.limit(self.cap)
            try:
                want = m.lookup(w)
            except TooExpensive:
                rec.count('words_out_of_domain')
                continue
            got = ask(d, w)
            rec.count('evaluations')
            rec.count('accepted' if want else 'rejected')
            n += w not in inp.get('_stems', ())
            if got is not want:
                raise Problem(f'{inp["name"]}: lookup({w!r}) is {got!r}, expected {want!r}')
            if want and d is not full and not any(w.lower()[a:b] in bad for a in range(len(w)) for b in range(a + 1, len(w) + 1)):
                rec.count('forms accepted by the complete dictionary')
                if ask(full, w) is not True:
                    raise Problem(f'{inp["name"]}: lookup({w!r}) is not True in the complete dictionary, but in that with entries {inp["start"]} to '
                                  f'{inp["start"] + inp["count"]}')
        sm = SugModel(m)
        for w in inp['sug']:
            m.limit(30000)
            try:
                want, over = sm.corrections(w)
            except TooExpensive:
                continue
            got = ask_kinds(d, w)
            rec.count('evaluations')
            rec.count('suggestion lists')
            rec.count('corrections', len(want))
            mine, theirs = [(s.text, s.kind) for s in want], [x for x in got if x[1] not in GUESS]
            if mine != theirs:
                raise Problem(f'{inp["name"]}: suggest({w!r}): corrections are {theirs}, expected {mine}')
            if not over and not any(k == 'dashes' for _, k in got):
                guesses = sm.ngrams(w, [t for t, _ in theirs])
                if guesses is not None:
                    rec.count('guesses', len(guesses))
                    theirs = [t for t, k in got if k == 'ngram']
                    if theirs != guesses:
                        raise Problem(f'{inp["name"]}: suggest({w!r}): n-gram guesses are {theirs}, expected {guesses}')
        rec.cases[repr((inp['name'], inp['start'], inp['words'][:5]))] = n
        rec.sample(dict(dictionary=inp['name'], start=inp['start'], words=inp['words'][:6]))

    def shrinks(self, inp):
        for key in ('words', 'sug'):
            if len(inp['words']) + len(inp['sug']) > 1:
                half = len(inp[key]) // 2
                if half:
                    yield dict(inp, **{key: inp[key][:half]})
                    yield dict(inp, **{key: inp[key][half:]})
                elif inp[key]:
                    yield dict(inp, **{key: []})
