"""Checks of relations between dictionaries (L05, A04), between ways of asking (P01), of the search for entries (D01), of printed forms (G02)"""
import itertools
import random

from . import spec as S
from .checks_load import Metamorphic, RICH
from .checks_lookup import G01
from .common import SpecCheck, guarded, ask, ask_sug, ask_kinds
from .gen import profile, many_similar
from .harness import Problem
from .model import Model, TooExpensive


def affix_text(x):
    return None if x is None else (x.flag, x.strip, x.add)


def form_text(f):
    """An analysis without the identity of the entry"""
    if hasattr(f, 'parts'):
        return tuple(form_text(p) for p in f.parts)
    w = f.in_dictionary
    return (f.text, f.stem, None if w is None else (w.stem, tuple(sorted(map(str, w.flags)))),
            affix_text(f.prefix2), affix_text(f.prefix), affix_text(f.suffix), affix_text(f.suffix2))


def uses(f, stem):
    """The analysis rests on an entry of this spelling"""
    if hasattr(f, 'parts'):
        return any(uses(p, stem) for p in f.parts)
    return f.stem == stem if f.in_dictionary is None else f.in_dictionary.stem == stem


class L05(Metamorphic):
    id = 'L05'
    technique = 'differential monitor: the same dictionary with its tables in another order'
    rule = ('A case is a generated dictionary and the same dictionary with the entries, affix tables, their rows, flags of entries, '
            'compound rules and patterns, break patterns and conversion rows put in another order, some entries repeated. An '
            'evaluation is the comparison of one answer (verdict, set of analyses, suggestions) between both; it is non-trivial if '
            'the answer is True or not empty.')
    profiles = [(profile(**dict(RICH, sfx=(1, 4), pfx=(0, 3), homonym=.3, rules=(1, 4))), 3),
                (profile(**dict(RICH, crules=1., COMPOUNDMIN=1., stem=(1, 3), words=(4, 10))), 2),
                (profile(**dict(RICH, COMPOUNDFLAG=(1., .6), CHECKCOMPOUNDREP=.2, pats=.5, COMPOUNDMIN=.9, stem=(1, 4), homonym=.3,
                                CHECKCOMPOUNDCASE=.3, FORCEUCASE=(.3, .3))), 2),
                (profile(**dict(RICH, brk=.9, dash=.3, iconv=.7, oconv=.5, KEEPCASE=(.4, .3), cap=.4, homonym=.3)), 2),
                (profile(**dict(RICH, FORBIDDENWORD=(1., .25), NEEDAFFIX=(.6, .3), NOSUGGEST=(.5, .3), homonym=.6)), 2),
                (profile(**dict(RICH, words=(130, 180), stem=(3, 7), homonym=0, alphabet='abcde', phrase=0, rules=(1, 2), ignore=0)), .3)]
    mix = [('form', 6), ('wrong', 4), ('compound', 4), ('mutant', 3), ('low', 1), ('broken', 1)]
    quick, thorough = 4000, 24000
    need = {'evaluations': 300000, 'compared: suggest': 6000, 'compared: analyses': 100000, 'entries moved': 50000, 'entries repeated': 4000,
            'affix tables moved': 10000, 'rows of affix tables moved': 15000, 'compound rules moved': 200, 'compound patterns moved': 100,
            'break patterns moved': 200, 'conversion rows moved': 200, 'dictionaries of more than 100 entries': 200}

    def variants(self, rng, inp):
        inp['reps'] = [rng.randrange(1 << 30) * 2, rng.randrange(1 << 30) * 2 + 1]
        if inp['source'] == 'many similar entries':
            inp['sug'] = inp['words'][-5:]

    def make_spec(self, rng):
        if rng.random() < .02:
            spec, words = many_similar(rng)
            return spec, words, 'many similar entries'
        spec, words, name = super().make_spec(rng)
        if spec is not None and rng.random() < .7:
            for e in spec.words:
                e.data = [(t, v) for t, v in e.data if t != 'ph']
            if rng.random() < .6:
                spec.words = list({e.stem: e for e in spec.words}.values())
        return spec, words, name

    @staticmethod
    def reorder(spec, rng, rec, repeated):
        """Another order of whatever has none"""
        def shuffled(rows, what):
            out = list(rows)
            rng.shuffle(out)
            rec.count(what, sum(a is not b for a, b in zip(rows, out)))
            return out
        c = S.copy(spec)
        repeat = [S.Entry(w.stem, w.flags, []) for w in c.words if rng.random() < .2 and not w.data] if repeated else []
        rec.count('entries repeated', len(repeat))
        c.words = shuffled(c.words + repeat, 'entries moved')
        for w in c.words:
            w.flags = tuple(rng.sample(list(w.flags), len(w.flags)))
        # of tables with the same flag, the last counts
        if len({(a.kind, a.flag) for a in c.affixes}) == len(c.affixes):
            c.affixes = shuffled(c.affixes, 'affix tables moved')
        for a in c.affixes:
            a.rules = shuffled(a.rules, 'rows of affix tables moved')
        c.crules = shuffled(c.crules, 'compound rules moved')
        c.pats = shuffled(c.pats, 'compound patterns moved')
        if c.brk is not None:
            c.brk = shuffled(c.brk, 'break patterns moved')
        for name in ('iconv', 'oconv'):
            rows = getattr(c, name)
            # of patterns that differ only in what they are tied to, the first counts
            if rows and len({a.strip('_') for a, _ in rows}) == len(rows):
                setattr(c, name, shuffled(rows, 'conversion rows moved'))
        return c

    def answers(self, d, inp):
        out = {}
        for w in inp['words']:
            out['lookup', w] = ask(d, w)
            if len(w) <= 12:
                out['analyses', w] = guarded(f'analyses of {w!r}', lambda: {form_text(f) for f in d.lookuper.good_forms(w)})
        # replacements hinted by entries are tried in the order of the entries; of many entries, the most similar are looked at
        words = inp['spec'].words
        if not any(t == 'ph' for e in words for t, _ in e.data) and len({e.stem for e in words}) == len(words):
            out.update(super().answers(d, dict(words=inp['sug'], sug=inp['sug'])))
        return out

    def judge(self, inp, rec):
        base = self.answers(self.load(inp), inp)
        n = 0
        for seed in inp['reps']:
            repeated = seed % 2 == 1
            other = self.reorder(inp['spec'], random.Random(seed), rec, repeated)
            some = {k: v for k, v in base.items() if not repeated or k[0] != 'suggest'}
            n += self.compare(some, self.load(dict(spec=other, rep=inp['rep']), 'o'), dict(inp, sug=[] if repeated else inp['sug']),
                              'in another order' + ', with repeated entries' * repeated, rec)
            rec.count('dictionaries of more than 100 entries', len(other.words) > 100)
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:5]))


RESTRICTING = ('FORBIDDENWORD', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE')


class A04(Metamorphic):
    id = 'A04'
    technique = 'differential monitor: a dictionary and the same with something added'
    rule = ('A case is a generated dictionary, an entry added to it, and an affix table nobody refers to added to it. An evaluation is '
            'the comparison of one answer before and after an addition; it is non-trivial if the word is accepted after the addition.')
    profiles = [(profile(**dict(RICH, sfx=(1, 4), pfx=(0, 3), homonym=.3, rules=(1, 4), CHECKCOMPOUNDREP=0)), 3),
                (profile(**dict(RICH, crules=1., COMPOUNDMIN=1., stem=(1, 3), words=(4, 10), CHECKCOMPOUNDREP=0)), 2),
                (profile(**dict(RICH, COMPOUNDFLAG=(1., .6), CHECKCOMPOUNDREP=0, pats=.5, COMPOUNDMIN=.9, stem=(1, 4), homonym=.3,
                                CHECKCOMPOUNDCASE=.3)), 2),
                (profile(**dict(RICH, KEEPCASE=(.6, .3), NEEDAFFIX=(.6, .3), ONLYINCOMPOUND=(.5, .2), NOSUGGEST=(.5, .3), cap=.5,
                                german=.2, turkic=.1, CHECKCOMPOUNDREP=0)), 3)]
    mix = [('form', 6), ('wrong', 4), ('compound', 4), ('mutant', 2), ('low', 2), ('broken', 1)]
    quick, thorough = 2000, 18000
    nsug = 3
    need = {'evaluations': 100000, 'entries added': 3000, 'words that stay accepted': 20000, 'words accepted because of the entry': 4000,
            'added entry is a homonym': 500, 'unused affix tables added': 1000, 'compared: suggest': 3000}

    def accepts(self, spec):
        # a compound is refused if some replacement makes an entry of it
        return 'CHECKCOMPOUNDREP' not in spec.bools and len(spec.words) >= 2

    def make(self, rng, i):
        inp = super().make(rng, i)
        if inp is None:
            return None
        # the entries to be added are taken from the dictionary: words made from them are among those asked
        spec = inp['spec']
        bad = {spec.flags[k] for k in RESTRICTING if k in spec.flags}
        fit = [k for k, e in enumerate(spec.words) if not bad & set(e.flags) and not e.data and ' ' not in e.stem]
        if not fit:
            return None
        inp['reps'] = rng.sample(fit, min(2, len(fit)))
        inp['homonym'] = None
        if rng.random() < .4:
            # or it has a spelling already there, and other flags
            a, b = rng.choice(spec.words), rng.choice([spec.words[k] for k in fit])
            if ' ' not in a.stem:
                inp['homonym'] = [rng.choice([a.stem, a.stem.capitalize(), a.stem.upper(), a.stem.lower()]), list(b.flags)]
        return inp

    def variants(self, rng, inp):
        pass

    def judge(self, inp, rec):
        spec, n = inp['spec'], 0
        pairs = []
        for k in inp['reps']:
            if k < len(spec.words):
                e, less = spec.words[k], S.copy(spec)
                del less.words[k]
                pairs.append((less, spec, e))
        if inp['homonym']:
            more, e = S.copy(spec), S.Entry(inp['homonym'][0], tuple(inp['homonym'][1]), [])
            more.words.append(e)
            pairs.append((spec, more, e))
        for less, more, e in pairs:
            # a spelling is refused at once if all its entries are forbidden: the new one ends that
            forbidden = spec.flags.get('FORBIDDENWORD')
            if any(forbidden is not None and forbidden in x.flags for x in less.words if x.stem == e.stem):
                continue
            before, after = (self.load(dict(spec=s, rep=inp['rep']), x) for s, x in ((less, 'a'), (more, 'b')))
            m = Model(more)
            stem = m.strip_ignored(e.stem)
            rec.count('entries added')
            rec.count('added entry is a homonym', any(x.stem == e.stem for x in less.words))
            for w in inp['words']:
                was, now = ask(before, w), ask(after, w)
                rec.count('evaluations')
                n += now is True
                if was and not now:
                    raise Problem(f'lookup({w!r}) is {now!r} after the entry {e.stem!r} {list(e.flags)} was added, {was!r} before')
                rec.count('words that stay accepted', was and now)
                if now and not was:
                    pieces, seen, rests = set(), set(), [m.prepare(w)]
                    while rests:
                        text = rests.pop()
                        if text not in seen:
                            seen.add(text)
                            points = list(m.break_points(text))
                            pieces.update(text[:a] for a, _ in points)
                            rests += [text[b:] for _, b in points]
                    if not any(uses(f, stem) for p in sorted(pieces | seen) for f in
                               guarded(f'analyses of {p!r}', lambda p=p: list(after.lookuper.good_forms(p)))):
                        raise Problem(f'lookup({w!r}) is True only since the entry {e.stem!r} {list(e.flags)} was added, '
                                      f'but no analysis rests on it')
                    rec.count('words accepted because of the entry')
        base = self.answers(self.load(inp), inp)
        more = S.copy(spec)
        flag = max(spec.all_flags(), default=0) + 1
        kind = random.Random(repr(inp['words'])).choice('PS')
        more.affixes.insert(len(more.affixes) // 2, S.Affix(kind, flag, True, [
            S.Rule('', spec.words[0].stem[:1] if spec.words else 'a', [('.', '')]), S.Rule('', 'x', [('.', '')])]))
        rep = self.make_rep(random.Random(1), more)
        rec.count('unused affix tables added')
        n += self.compare(base, self.load(dict(spec=more, rep=rep), 'c'), inp, 'after an affix table nobody refers to was added', rec)
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:5]))


class D01(SpecCheck):
    id = 'D01'
    technique = 'reference-model monitor on the search for entries and their flags'
    sizes = [('', 94.5), ('long', 2.5), ('vast', .5), ('many', 2.5), ('huge', .4)]
    rule = ('A case is a generated or mutated fixture dictionary with spellings of entries, recased, changed and unknown ones. An '
            'evaluation is one search (exact or ignoring case) or one question about a flag compared with the entries as written; '
            'it is non-trivial if some entry has the spelling.')
    profiles = [(profile(**dict(RICH, homonym=.5, words=(6, 20), FORBIDDENWORD=(.6, .3))), 3),
                (profile(**dict(RICH, homonym=.4, cap=.6, german=.3, turkic=.2, alphabet=['aßsS', 'aıiIİ', 'aéñ', 'αςσ', 'abc'])), 3),
                (profile(**dict(RICH, homonym=.3, ignore=.6, dash=.2, phrase=.2)), 1)]
    nwords = 20
    quick, thorough = 3000, 25000
    need = {'evaluations': 800000, 'entries found': 25000, 'several entries of a spelling': 4000, 'spelling without entries': 80000,
            'found ignoring case only': 20000, 'flag of all entries': 40000, 'flag of some entries': 20000, 'flag of no entry': 300000}

    def make(self, rng, i):
        inp = super().make(rng, i)
        if inp is None:
            return None
        inp['flag_choice'] = rng.randrange(1 << 30)
        stems = [e.stem for e in inp['_model'].entries]
        stems = rng.sample(stems, min(len(stems), 25))
        texts = list(stems)
        for t in stems:
            texts += rng.sample([t.lower(), t.upper(), t.capitalize(), t.swapcase(), t[:-1], t + t[-1:], t.title(), t + ' '], 3)
        inp['words'] = list(dict.fromkeys(texts + inp['words'] + ['', 'zq']))
        return inp

    def judge(self, inp, rec):
        d = self.load(inp)
        m = self.model(inp)
        flagmap, rng = inp['rep'].flagmap, random.Random(inp['flag_choice'])
        where = {id(w): k for k, w in enumerate(d.dic.words)}
        if [w.stem for w in d.dic.words] != [e.stem for e in m.entries]:
            raise Problem(f'entries are {[w.stem for w in d.dic.words][:10]}, expected {[e.stem for e in m.entries][:10]}')
        n = 0

        def lower(text):
            return [text] if m.casing.captype(text) == 'no' else m.casing.lower(text)

        def found(t, **kw):
            return list(dict.fromkeys(where.get(id(w), -1) for w in guarded(
                f'entries of {t!r} {kw}', lambda: list(d.dic.homonyms(t, **kw)))))
        index = {}
        for k, e in enumerate(m.entries):
            for low in lower(e.stem):
                index.setdefault(low, []).append(k)
        for t in inp['words']:
            want = [k for k, e in enumerate(m.entries) if e.stem == t]
            got = found(t)
            rec.count('evaluations')
            rec.count('entries found', len(got))
            rec.count('several entries of a spelling', len(want) > 1)
            rec.count('spelling without entries', not want)
            n += bool(want)
            if got != want:
                raise Problem(f'entries of {t!r}: {got}, expected {want}')
            for low in dict.fromkeys([*lower(t), t]):
                want_low = list(dict.fromkeys(index.get(low, [])))
                got = found(low, ignorecase=True)
                rec.count('evaluations')
                rec.count('found ignoring case only', bool(got) and not want)
                if got != want_low:
                    raise Problem(f'entries of {low!r}, ignoring case: {got}, expected {want_low}')
            flags = sorted({f for k in want for f in m.entries[k].flags} | set(rng.sample(sorted(flagmap), min(3, len(flagmap)))))
            for f in rng.sample(flags, min(5, len(flags))):
                have = [f in m.entries[k].flags for k in want]
                for for_all in rng.choice([(False, True), (True, False), (False, True, False), (True, False, True)]):
                    got = bool(guarded(f'flag {f} of {t!r}', lambda: d.dic.has_flag(t, flagmap[f], for_all=for_all)))
                    expected = bool(have) and (all(have) if for_all else any(have))
                    rec.count('evaluations')
                    rec.count(f'flag of {"all entries" if all(have) and have else "some entries" if any(have) else "no entry"}')
                    if got is not expected:
                        raise Problem(f'{"all" if for_all else "some"} of the entries {t!r} have the flag {flagmap[f]!r}: {got}, '
                                      f'expected {expected} (of {len(want)} entries {sum(have)} have it)')
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:6]))


class P01(Metamorphic):
    id = 'P01'
    technique = 'differential monitor: the same question asked in different ways'
    rule = ('A case is a generated or mutated fixture dictionary with words. An evaluation is one comparison of the answer of the '
            'dictionary with that of its components, of a second object made from the same data, or of its parts; it is '
            'non-trivial if the answer is not empty.')
    profiles = [(profile(**RICH), 3), (profile(**dict(RICH, COMPOUNDFLAG=(.9, .6), COMPOUNDMIN=.9, stem=(1, 4))), 1), (profile(), 1), (profile(alphabet='aeé' + chr(0x301), phone=0.), .5),
                (profile(words=(250, 450), stem=(1, 2), alphabet='abcdefghijklmnopqr', TRY=1., pfx=(0, 1), sfx=(0, 1), FORBIDDENWORD=(0., 0.), NOSUGGEST=(0., 0.)), .8)]
    nwords = 20
    quick, thorough = 1500, 12000
    need = {'evaluations': 100000, 'verdicts': 25000, 'suggestions': 10000, 'lists of more than 15 suggestions': 20, 'analyses': 12000}

    def variants(self, rng, inp):
        pass

    def shrinks(self, inp):
        return SpecCheck.shrinks(self, inp)

    def judge(self, inp, rec):
        from spylls.hunspell import Dictionary
        d = self.load(inp)
        again = guarded('making a dictionary from loaded data', lambda: Dictionary(d.aff, d.dic))
        n = 0

        def same(what, got, want):
            nonlocal n
            rec.count('evaluations')
            n += bool(want)
            if got != want or type(got) is not type(want):
                raise Problem(f'{what} is {got!r}, expected {want!r}')
        for w in inp['words']:
            verdict = ask(d, w)
            rec.count('verdicts')
            same(f'the verdict of the lookup component on {w!r}', guarded('lookup component', lambda: d.lookuper(w)), verdict)
            same(f'the verdict of a second object on {w!r}', ask(again, w), verdict)

            def forms(**kw):
                return {form_text(f) for f in guarded(f'analyses of {w!r}', lambda: list(d.lookuper.good_forms(w, **kw)))}
            every = forms()
            rec.count('analyses', len(every))
            same(f'the union of analyses of {w!r} as single word and as compound',
                 forms(compound_forms=False) | forms(affix_forms=False), every)
        for w in inp['sug']:
            texts = ask_sug(d, w)
            rec.count('suggestions', len(texts))
            rec.count('lists of more than 15 suggestions', len(texts) > 15)
            same(f'the list of texts of labelled suggestions for {w!r}', [t for t, _ in ask_kinds(d, w)], texts)
            same(f'the list of the suggestion component for {w!r}', guarded('suggestion component', lambda: list(d.suggester(w))), texts)
            same(f'the list of a second object for {w!r}', ask_sug(again, w), texts)
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:5]))


class G02(P01):
    id = 'G02'
    technique = 'reference-model monitor on printed forms'
    rule = ('A case is a generated or mutated fixture dictionary with words. An evaluation is the comparison of the printed form of '
            'an analysis, an entry or a suggestion with the derivation of the reference model (the entry as written, the kind and '
            'text of the suggestion); it is non-trivial if something other than a bare entry is printed.')
    profiles = G01.profiles
    mix = G01.mix
    maxlen = 12
    nwords = 30
    nsug = 3
    cap = 1500
    quick, thorough = 2500, 18000
    need = {'evaluations': 90000, 'printed analyses': 50000, 'with affixes': 20000, 'with two suffixes or prefixes': 5000, 'parts of compounds': 25000,
            'printed entries': 25000, 'printed suggestions': 12000}

    def judge(self, inp, rec):
        m = self.model(inp)
        d = self.load(inp)
        fl = inp['rep'].flagmap
        n = 0

        def flagtexts(flags, empty=('',)):
            # in any order
            return [','.join(p) for p in itertools.permutations(fl[f] for f in flags)] if flags else empty

        def affix(x):
            sign = '×' if x.cross else ''
            flags = ['/' + t for t in flagtexts(x.flags)] if x.flags else ['']
            cond = S.cond_text(x.cond)
            return [f'Prefix({x.add}: {fl[x.flag]}{sign}{t}, on ^{x.strip}[{cond}])' if x.kind == 'P' else
                    f'Suffix({x.add}: {fl[x.flag]}{sign}{t}, on [{cond}]{x.strip}$)' for t in flags]

        def texts(text, stem, affixes):
            p2, p, s, s2 = affixes
            if not any(affixes):
                return [f'AffixForm({text})', f'AffixForm({text} = {stem})']
            parts = [affix(x) for x in (p2, p) if x] + [[stem]] + [affix(x) for x in (s, s2) if x]
            return [f'AffixForm({text} = ' + ' + '.join(c) + ')' for c in itertools.product(*parts)]

        def few(affixes):
            return sum(len(x.flags) for x in affixes if x) <= 5

        for w in inp['words']:
            m.limit(self.cap)
            want, skip = {}, False
            try:
                ct, variants = m.casing.variants(w)
                for v in variants:
                    for a in m.affix_anas(v, ct, True):
                        kc = m.F['KEEPCASE']
                        if m.sharps and kc is not None and 'ß' in a.entry.stem and kc in m.ana_flags(a) and ct == 'all' and 'ß' in w:
                            continue
                        aff = (a.p2, a.p, a.s, a.s2)
                        skip = skip or not few(aff)
                        want[v, a.stem, aff] = [] if skip else texts(v, a.stem, aff)
                    for parts in m.compound_splits(v, ct, True):
                        key = []
                        for t, a in parts:
                            aff = (None,) * 4 if a is None else (a.p2, a.p, a.s, a.s2)
                            skip = skip or not few(aff)
                            key.append((t, t if a is None else a.stem, aff))
                        want[tuple(key)] = [] if skip else [texts(*k) for k in key]
            except TooExpensive:
                skip = True
            if skip:
                rec.count('words_out_of_domain')
                continue
            unseen = dict(want)
            for f in guarded(f'good_forms({w!r})', lambda: list(d.lookuper.good_forms(w))):
                whole = guarded(f'printing an analysis of {w!r}', lambda: str(f))
                rec.count('evaluations')
                rec.count('printed analyses')
                if hasattr(f, 'parts'):
                    got = [guarded('printing a part', lambda: str(x)) for x in f.parts]
                    hits = [k for k, v in want.items() if isinstance(k[0], tuple) and len(v) == len(got) and all(g in t for g, t in zip(got, v))]
                    rec.count('parts of compounds', len(got))
                    i = 0
                    for g in got:
                        if g not in whole[i:]:
                            raise Problem(f'the printed analysis {whole} of {w!r} does not show the part {g}')
                        i = whole.index(g, i) + len(g)
                else:
                    hits = [k for k, v in want.items() if not isinstance(k[0], tuple) and whole in v]
                    rec.count('with affixes', any(any(k[2]) for k in hits))
                    rec.count('with two suffixes or prefixes', any(k[2][0] or k[2][3] for k in hits))
                    n += any(any(k[2]) for k in hits)
                if not hits:
                    raise Problem(f'an analysis of {w!r} is printed as {whole}, expected one of {[v[0] for v in want.values()][:4]}')
                for k in hits:
                    unseen.pop(k, None)
            if unseen:
                raise Problem(f'no analysis of {w!r} is printed as {next(iter(unseen.values()))[:2]}')
        for w, e in zip(d.dic.words, m.entries):
            if len(e.flags) > 4:
                continue
            got = guarded('printing an entry', lambda: str(w))
            rec.count('evaluations')
            rec.count('printed entries')
            if got not in [f'Word({e.stem} /{t})' for t in flagtexts(e.flags)] and (e.flags or got != f'Word({e.stem})'):
                raise Problem(f'the entry {e.stem!r} with flags {[fl[f] for f in e.flags]} is printed as {got}')
        got = guarded('printing the word list', lambda: str(d.dic))
        rec.count('evaluations')
        if str(len(m.entries)) not in got:
            raise Problem(f'the list of {len(m.entries)} entries is printed as {got}')
        for w in inp['sug']:
            for x in guarded(f'suggestions({w!r})', lambda: list(d.suggester.suggestions(w))):
                got = guarded('printing a suggestion', lambda: str(x))
                rec.count('evaluations')
                rec.count('printed suggestions')
                n += 1
                if got != f'Suggestion[{x.kind}]({x.text})':
                    raise Problem(f'the suggestion {x.text!r} of kind {x.kind!r} is printed as {got}')
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:6]))
