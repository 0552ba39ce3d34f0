"""
What most checks share: dictionaries from a profile or from a fixture, loading them with spylls, shrinking.
"""
import os
import random
import sys

from . import spec as S
from .harness import Check, Problem, Timeout, Steps, fingerprint
from .model import Model, TooExpensive, Ana
from .gen import SpecGen, WordGen, profile, wchoice, DEFAULTS
from .fixtures import fixture_specs, bundled_sample


def guarded(what, fn):
    """Call into the code under test; any exception is a wrong answer"""
    try:
        return fn()
    except (Timeout, Steps, KeyboardInterrupt):
        raise
    except BaseException as e:   # pylint: disable=broad-except
        raise Problem(f'{what}: raised {type(e).__name__}: {e}')


def load(path, what='loading'):
    from spylls.hunspell import Dictionary
    return guarded(what, lambda: Dictionary.from_files(path))


def ask(d, w):
    return guarded(f'lookup({w!r})', lambda: d.lookup(w))


def ask_sug(d, w):
    return guarded(f'suggest({w!r})', lambda: list(d.suggest(w)))


def ask_kinds(d, w):
    return guarded(f'suggestions({w!r})', lambda: [(s.text, s.kind) for s in d.suggester.suggestions(w)])


def classify(model, word, accepted):
    """How the model explains an accepted word"""
    if not accepted:
        return 'rejected'
    w = model.prepare(word)
    from .model import is_number
    if is_number(w):
        return 'accepted: number'
    for a in model.good_forms(w):
        if isinstance(a, Ana):
            n = [k for k, x in zip(('prefix2', 'prefix', 'suffix', 'suffix2'), (a.p2, a.p, a.s, a.s2)) if x is not None]
            how = '+'.join(n) or 'bare'
            same = a.entry.stem == a.stem and model.casing.captype(w) == model.casing.captype(
                a.stem) if how == 'bare' else None
            return f'accepted: {how}' + ('' if same in (None, True) else ' recased')
        return f'accepted: compound of {len(a) if len(a) < 4 else "4+"} by {"rule" if a[0][1] is None else "flags"}'
    return 'accepted: broken'


class SpecCheck(Check):
    """Cases: a dictionary and words to ask about"""
    profiles = []           # [(profile, weight)]
    fixtures = 0.2          # share of cases made from a mutated fixture
    fixture_filter = None   # names of fixtures, or None
    nwords = 50
    mix = None
    maxlen = 18
    cap = 4000              # domain limit on splitting steps per word
    fmts = [('short', 6), ('long', 1), ('num', 1), ('UTF-8', 1)]

    sizes = [('', 95), ('long', 2.5), ('some', 2.5)]
    stretch = 3             # how much longer words may be in dictionaries of long words
    bundled = .01           # share of cases made from a bundled dictionary (its affixes, a sample of its entries)
    bundled_names = ('en_US', 'ru', 'sv_SE')

    def make_spec(self, rng):
        """(spec, extra words, source)"""
        if rng.random() < self.bundled:
            name = rng.choice(self.bundled_names)
            spec = bundled_sample(name, rng, rng.choice([10, 40, 80]))
            if self.accepts(spec):
                return spec, [], name
        if rng.random() < self.fixtures:
            specs = fixture_specs()
            names = [n for n in sorted(specs) if self.fixture_filter is None or n in self.fixture_filter]
            if names:
                name = rng.choice(names)
                spec, words = specs[name]
                spec = S.copy(spec)
                mutate_spec(rng, spec, self.keep_feature())
                if self.accepts(spec):
                    return spec, words, name
        size = wchoice(rng, self.sizes)
        spec = SpecGen(rng, wchoice(rng, self.profiles), size).generate()
        return (spec, [], size) if self.accepts(spec) else (None, None, None)

    def keep_feature(self):
        return None

    def accepts(self, spec):
        return True

    def make(self, rng, i):
        spec, extra, name = self.make_spec(rng)
        if spec is None:
            return None
        model = Model(spec)
        model.limit(20000)
        wg = WordGen(rng, spec, model)
        self.maxlen = type(self).maxlen * {'long': self.stretch, 'vast': 30}.get(name, 1)
        extra = [w for w in extra if len(w) <= self.maxlen * 2]
        rng.shuffle(extra)
        words = self.make_words(rng, wg)
        words += [w for w in extra[:max(5, self.nwords // 4)] if w not in words]
        inp = dict(spec=spec, rep=self.make_rep(rng, spec), words=words, source=name)
        inp['_model'] = model
        inp['_trivial'] = set(wg.stems)
        return inp

    def make_words(self, rng, wg):
        return wg.words(self.nwords, self.mix, self.maxlen)

    def make_rep(self, rng, spec):
        fmt = wchoice(rng, self.fmts)
        if len(spec.all_flags()) > 50:
            fmt = 'num'
        return S.default_rep(spec, rng, fmt)

    def model(self, inp):
        return inp.get('_model') or Model(inp['spec'])

    def load(self, inp, name='d'):
        path = os.path.join(self.scratch, name)
        S.write(inp['spec'], inp['rep'], path)
        return load(path)

    def seen(self, rec, inp, n):
        """Record the case with n distinct non-trivial evaluations"""
        if '_model' in inp:
            rec.count({'huge': 'cases with thousands of entries', 'long': 'cases with long texts', 'vast': 'cases with very long texts', 'some': 'cases with large tables', 'many': 'cases with large tables'}.get(inp.get('source'), 'cases of usual size'))
            rec.cases[fingerprint(dict(spec=inp['spec'], words=inp['words']))] = n

    def nontrivial(self, inp, word):
        return word not in inp.get('_trivial', ())

    def shrinks(self, inp):
        return spec_shrinks(inp)


class LookupCheck(SpecCheck):
    """Verdict of lookup against the model's, for every word"""
    technique = 'reference-model monitor on lookup verdicts'
    sizes = [('', 94.5), ('long', 2.5), ('vast', .5), ('many', 2.5), ('huge', .4)]
    direction = 'both'      # or 'accept': only wrongly rejected words count, 'reject': only wrongly accepted
    need = {'accepted': 2000, 'rejected': 2000}

    def judge(self, inp, rec):
        m = self.model(inp)
        d = self.load(inp)
        n = 0
        for w in inp['words']:
            m.limit(self.cap)
            try:
                want = m.lookup(w)
            except TooExpensive:
                rec.count('words_out_of_domain')
                continue
            got = ask(d, w)
            rec.count('evaluations')
            rec.count('accepted' if want else 'rejected')
            if '_model' in inp:
                try:
                    rec.count(classify(m, w, want))
                except TooExpensive:
                    pass
                n += self.nontrivial(inp, w)
            if got is not want:
                if want and self.direction != 'reject' or not want and self.direction != 'accept':
                    raise Problem(f'lookup({w!r}) is {got!r}, expected {want!r}' + (f' ({explain(m, w)})' if want else ''))
                rec.count('divergences of the other direction')
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:6],
                        fixture=inp.get('source', '')))


def explain(m, w):
    m.limit(None)
    for a in m.good_forms(m.prepare(w)):
        if isinstance(a, Ana):
            return f'derivation: {show(a)}'
        return 'compound: ' + ' | '.join(f'{t}={show(x) if x else t}' for t, x in a)
    return 'by breaking'


def show(a):
    return '+'.join([f'{x.add}-' for x in (a.p2, a.p) if x is not None] + [a.stem] +
                    [f'-{x.strip}>{x.add}' for x in (a.s, a.s2) if x is not None])


# ---------------------------------------------------------------------------------------------

def mutate_spec(rng: random.Random, spec: S.Spec, keep=None):
    """Random small changes of a dictionary"""
    if len(spec.words) > 40:
        spec.words = rng.sample(spec.words, 40)
    flags = spec.all_flags()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.randrange(10)
        if k == 0 and len(spec.words) > 2:
            spec.words.pop(rng.randrange(len(spec.words)))
        elif k == 1 and spec.words:
            w = rng.choice(spec.words)
            if flags:
                f = rng.choice(flags)
                w.flags = tuple(x for x in w.flags if x != f) if f in w.flags else w.flags + (f,)
        elif k == 2 and spec.affixes:
            r = rng.choice(rng.choice(spec.affixes).rules)
            f = rng.choice(flags)
            r.flags = tuple(x for x in r.flags if x != f) if f in r.flags else r.flags + (f,)
        elif k == 3 and spec.affixes:
            a = rng.choice(spec.affixes)
            a.cross = not a.cross
        elif k == 4 and spec.bools:
            b = rng.choice(spec.bools)
            if b != 'CHECKSHARPS':
                spec.bools.remove(b)
        elif k == 5:
            b = rng.choice(['COMPLEXPREFIXES', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE',
                            'NOSPLITSUGS', 'ONLYMAXDIFF'])
            if b not in spec.bools:
                spec.bools.append(b)
        elif k == 6 and flags:
            n = rng.choice(['NEEDAFFIX', 'FORBIDDENWORD', 'KEEPCASE', 'ONLYINCOMPOUND', 'NOSUGGEST', 'CIRCUMFIX',
                            'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'COMPOUNDFLAG'])
            if n not in spec.flags:
                spec.flags[n] = rng.choice(flags)
        elif k == 7 and spec.words:
            w = rng.choice(spec.words)
            t = w.stem
            w.stem = rng.choice([t.capitalize(), t.upper(), t + t[-1:], t[1:].strip() or t])
        elif k == 8 and spec.words:
            w = rng.choice(spec.words)
            spec.words.append(S.Entry(w.stem, tuple(f for f in flags if rng.random() < .3), []))
        elif k == 9 and spec.affixes:
            r = rng.choice(rng.choice(spec.affixes).rules)
            if rng.random() < .5:
                r.cond = r.cond[1:]
            elif r.strip:
                r.strip = r.strip[1:]
    return spec


def spec_shrinks(inp):
    """Smaller inputs, most promising first"""
    def with_(**kw):
        c = {k: v for k, v in inp.items() if not k.startswith('_')}
        c.update(kw)
        return c
    words = inp.get('words') or []
    if len(words) > 1:
        h = len(words) // 2
        yield with_(words=words[:h])
        yield with_(words=words[h:])
        if len(words) <= 8:
            for i in range(len(words)):
                yield with_(words=words[:i] + words[i + 1:])

    spec = inp.get('spec')
    if spec is None:
        return

    def changed(fn):
        c = S.copy(spec)
        fn(c)
        return with_(spec=c)
    n = len(spec.words)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield changed(lambda c, a=a, size=size: c.words.__delitem__(slice(a, a + size)))
        size //= 2
    for i in range(len(spec.affixes)):
        yield changed(lambda c, i=i: c.affixes.pop(i))
    for name in ('rep', 'map', 'crules', 'pats'):
        for i in range(len(getattr(spec, name))):
            yield changed(lambda c, i=i, name=name: getattr(c, name).pop(i))
    for name in ('iconv', 'oconv', 'brk', 'phone'):
        rows = getattr(spec, name)
        if rows is not None:
            yield changed(lambda c, name=name: setattr(c, name, None))
            if len(rows) > 1:
                for i in range(len(rows)):
                    yield changed(lambda c, i=i, name=name: getattr(c, name).pop(i))
    for d in ('strs', 'ints', 'flags'):
        for k in list(getattr(spec, d)):
            yield changed(lambda c, d=d, k=k: getattr(c, d).pop(k))
    for b in spec.bools:
        yield changed(lambda c, b=b: c.bools.remove(b))
    for i, a in enumerate(spec.affixes):
        if len(a.rules) > 1:
            for j in range(len(a.rules)):
                yield changed(lambda c, i=i, j=j: c.affixes[i].rules.pop(j))
        for j, r in enumerate(a.rules):
            for k in range(len(r.flags)):
                yield changed(lambda c, i=i, j=j, k=k: setattr(
                    c.affixes[i].rules[j], 'flags', c.affixes[i].rules[j].flags[:k] + c.affixes[i].rules[j].flags[k + 1:]))
            if r.cond:
                yield changed(lambda c, i=i, j=j: setattr(c.affixes[i].rules[j], 'cond', []))
            if r.strip:
                yield changed(lambda c, i=i, j=j: setattr(c.affixes[i].rules[j], 'strip', ''))
    for i, w in enumerate(spec.words):
        for k in range(len(w.flags)):
            yield changed(lambda c, i=i, k=k: setattr(c.words[i], 'flags', c.words[i].flags[:k] + c.words[i].flags[k + 1:]))
        if w.data:
            yield changed(lambda c, i=i: setattr(c.words[i], 'data', []))
