"""Checks of suggestions: S01-S10"""
from .common import SpecCheck, ask, ask_kinds, ask_sug
from .gen import profile, many_similar
from .harness import Problem
from .model import Model, TooExpensive, NO
from .spec import copy
from .sugmodel import SugModel, DECISIVE

RULE = ('A case is a generated dictionary (or a mutated fixture, or a sample of a bundled dictionary) with misspelled words: '
        'accepted words with typical mistakes, wrong affixes, split and joined words, recased. An evaluation is one complete '
        'suggestion list judged against the reference model; it is non-trivial if the list or what the model '
        'expects of it is not empty.')
GUESS = ('ngram', 'phonet')
SUG = dict(words=(4, 16), TRY=.85, KEY=.4, pfx=(0, 1), sfx=(0, 2), COMPOUNDFLAG=(.15, .5), crules=.04, COMPOUNDMIN=.5,
           FORCEUCASE=(.03, .2))
NOCOMP = dict(COMPOUNDFLAG=(0, 0), COMPOUNDBEGIN=(0, 0), crules=0)
MIX = [('mutant', 10), ('wrong', 2), ('compound', 2), ('mutcomp', 1), ('low', 1), ('form', 1), ('broken', 1), ('random', .5),
       ('space', .2)]


class SugCheck(SpecCheck):
    technique = 'reference-model monitor on suggestion lists'
    rule = RULE
    mix = MIX
    nwords = 14
    maxlen = 10
    cap = 12000
    fixtures = .12
    bundled = .006
    bundled_names = ('en_US', 'ru')
    quick, thorough = 2000, 14000

    def make_words(self, rng, wg):
        out = wg.words(self.nwords - 4, self.mix, self.maxlen)
        for _ in range(8):
            w = self.mistake(rng, wg, wg.form())
            if w and len(w) <= self.maxlen and w not in out:
                out.append(w)
            if len(out) >= self.nwords:
                break
        return out

    def mistake(self, rng, wg, w, k=None):
        """One mistake that the documented edits correct (if its kind is given, not at the start)"""
        if not w:
            return w
        i = rng.randrange(len(w) // 2 if k is not None else 0, len(w))
        if k is None:
            k = rng.randrange(10)
        tr = wg.spec.strs.get('TRY', '')
        if k == 0 and len(w) > 1:
            i = min(i, len(w) - 2)
            w = w[:i] + w[i + 1] + w[i] + w[i + 2:]
        elif k == 1:
            w = w[:i] + w[i + 1:]
        elif k == 2:
            w = w[:i] + rng.choice(wg.chars) + w[i:]
        elif k == 3:
            w = w[:i] + rng.choice(wg.chars) + w[i + 1:]
        elif k == 4 and len(w) > 2:
            d = rng.choice([2, 3])
            if i + d < len(w):
                w = w[:i] + w[i + d] + w[i + 1:i + d] + w[i] + w[i + d + 1:]
        elif k == 5 and len(w) > 2:
            c, rest = w[i], w[:i] + w[i + 1:]
            j = max(0, min(len(rest), i + rng.choice([-3, -2, 2, 3])))
            w = rest[:j] + c + rest[j:]
        elif k == 6 and len(w) > 2:
            i = min(i, len(w) - 2)
            w = w[:i + 2] + w[i:]
        elif k == 7:
            w = w.replace(' ', '') if ' ' in w else w + rng.choice(wg.stems)
        elif k == 8:
            w = wg.recase(w)
        elif len(w) > 3:
            w = w[:-1] + rng.choice(wg.chars) + rng.choice(wg.chars)
        if rng.random() < .2:
            w = wg.recase(w)
        return w

    def judge(self, inp, rec):
        m = self.model(inp)
        sm = SugModel(m)
        d = self.load(inp)
        n = 0
        for w in inp['words']:
            m.limit(self.cap)
            try:
                pre = self.prepare(sm, w)
            except TooExpensive:
                rec.count('words_out_of_domain')
                continue
            got = ask_kinds(d, w)
            for t, _ in got:
                if not isinstance(t, str):
                    raise Problem(f'suggest({w!r}) gave {t!r}')
            m.limit(self.cap * 3)
            try:
                useful = self.judge_word(sm, d, w, pre, got, rec)
            except TooExpensive:
                rec.count('words_out_of_domain')
                continue
            rec.count('evaluations')
            for _, k in got:
                rec.count(f'suggested: {k}')
            rec.count('empty lists', not got)
            n += bool(got) or bool(useful)
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:6]))

    def prepare(self, sm, w):
        return sm.corrections(w)

    def judge_word(self, sm, d, w, pre, got, rec):
        raise NotImplementedError


def universe(sm, w):
    """kind -> set of texts that could be suggested for w as that kind of correction"""
    ct, variants = sm.c.corrections(w)
    out = {}

    def add(kind, raw):
        t = sm.finish(raw, w, ct)
        if t is not None:
            out.setdefault(kind, set()).add(t)
    if sm.m.F['FORCEUCASE'] is not None and ct == NO:
        for cap in sm.c.capitalize(w):
            if sm.valid(cap):
                add('forceucase', cap.capitalize())
    for i, v in enumerate(variants):
        if i and sm.valid(v):
            add('case', v)
        for c in sm.edits(v):
            sm.m.step()
            if all(sm.valid(x) for x in c.words):
                add(c.kind, ' '.join(c.words))
                if c.dash:
                    add(c.kind, '-'.join(c.words))
    return out


def is_dashed(w, text):
    """text is w with one dash-separated part replaced"""
    chunks = w.split('-')
    for i in range(len(chunks)):
        a, b = '-'.join(chunks[:i] + ['']), '-'.join([''] + chunks[i + 1:])
        if text.startswith(a) and text.endswith(b) and len(text) >= len(a) + len(b):
            return True
    return False


class S01(SugCheck):
    id = 'S01'
    technique = 'reference-model monitor: every correction re-derived and re-validated'
    profiles = [(profile(**dict(SUG, **NOCOMP)), 5), (profile(**dict(SUG, COMPOUNDFLAG=(1., .6), stem=(1, 4))), 2),
                (profile(**dict(SUG, rep=.8, map=.6, ph=.2, phrase=.15)), 2),
                (profile(**dict(SUG, cap=.4, KEEPCASE=(.4, .3), german=.2, turkic=.2, oconv=.15, NEEDAFFIX=(.3, .3),
                                FORBIDDENWORD=(.3, .2))), 2),
                (profile(**dict(SUG, alphabet='ab', words=(8, 20), stem=(1, 5))), 1), (profile(**dict(SUG, dash=.25)), 1)]
    need = {'evaluations': 20000, 'corrections checked': 30000}

    def prepare(self, sm, w):
        return universe(sm, w)

    def judge_word(self, sm, d, w, pre, got, rec):
        for t, k in got:
            if k in GUESS:
                continue
            rec.count('corrections checked')
            if k == 'dashes':
                if not is_dashed(w, t) or not sm.m.lookup(t):
                    raise Problem(f'suggest({w!r}): {t!r} ({k}) is not an accepted word with one part of {w!r} corrected')
            elif t not in pre.get(k, ()):
                raise Problem(f'suggest({w!r}): {t!r} is not a valid word made by the correction "{k}"')


FLAGGED = dict(SUG, FORBIDDENWORD=(.7, .2), NOSUGGEST=(.8, .25), ONLYINCOMPOUND=(.5, .2), homonym=.3, cap=.15)


class S02(SugCheck):
    id = 'S02'
    technique = 'reference-model monitor: suggestions possible only with unsuggestable entries'
    profiles = [(profile(**dict(FLAGGED, **NOCOMP)), 5), (profile(**dict(FLAGGED, COMPOUNDFLAG=(1., .6), stem=(1, 4))), 2),
                (profile(**dict(FLAGGED, crules=1., COMPOUNDMIN=1., stem=(1, 3), words=(4, 9))), 1),
                (profile(**dict(FLAGGED, rep=.7, map=.4, phone=.5, ph=.3, phrase=.15, dash=.15)), 3),
                (profile(**dict(FLAGGED, NOSUGGEST=(.3, .2), FORBIDDENWORD=(1., .4), cap=.4)), 1)]
    nwords = 12
    fixture_filter = {'nosuggest', 'forbiddenword', 'onlyincompound', 'onlyincompound2', 'opentaal_forbiddenword1',
                      'opentaal_forbiddenword2', 'keepcase', 'allcaps', 'compoundrule', 'compoundflag'}
    need = {'evaluations': 15000, 'suggestions checked': 20000, 'flagged words within reach': 3000, 'NOSUGGEST forms looked up': 500}

    NAMES = ('FORBIDDENWORD', 'NOSUGGEST', 'ONLYINCOMPOUND')

    def accepts(self, spec):
        return any(x in spec.flags for x in self.NAMES)

    def relaxed(self, inp):
        if '_relaxed' not in inp:
            spec = copy(inp['spec'])
            for x in self.NAMES:
                spec.flags.pop(x, None)
            inp['_relaxed'] = SugModel(Model(spec))
        return inp['_relaxed']

    def judge(self, inp, rec):
        self.rx = self.relaxed(inp)
        super().judge(inp, rec)
        m = self.model(inp)
        f = inp['spec'].flags.get('NOSUGGEST')
        if f is not None:
            d = self.load(inp)
            for e in m.entries:
                if f in e.flags:
                    for t, _ in list(m.forms(e, e.stem))[:4]:
                        try:
                            m.limit(4000)
                            want = m.lookup(t)
                        except TooExpensive:
                            continue
                        if want and not ask(d, t):
                            raise Problem(f'lookup({t!r}) is False for a NOSUGGEST word')
                        rec.count('NOSUGGEST forms looked up', want)

    def prepare(self, sm, w):
        self.rx.m.limit(self.cap)
        return universe(sm, w), universe(self.rx, w)

    @staticmethod
    def guessed(sm, w):
        ct = sm.c.captype(w)
        raw = set()
        for e in sm.guessable:
            raw.update(sm.similar_forms(e, w.lower()))
        return {sm.finish(x, w, ct) for x in raw if x}

    def judge_word(self, sm, d, w, pre, got, rec):
        mine, relaxed = ({t for s in u.values() for t in s} for u in pre)
        rec.count('flagged words within reach', len(relaxed - mine) > 0)
        gm = gr = None
        for t, k in got:
            rec.count('suggestions checked')
            if k != 'dashes' and sm.m.oconv is None and sm.forbidden(t):
                raise Problem(f'suggest({w!r}): {t!r} ({k}) is a forbidden word')
            if k in GUESS:
                if gm is None:
                    gm, gr = self.guessed(sm, w), self.guessed(self.rx, w)
                if t not in gm and t in gr:
                    raise Problem(f'suggest({w!r}): guess {t!r} needs an entry that must not be suggested')
            elif k == 'dashes':
                self.rx.m.limit(self.cap)
                if not sm.m.lookup(t, allow_nosuggest=False) and self.rx.m.lookup(t):
                    raise Problem(f'suggest({w!r}): {t!r} ({k}) needs an entry that must not be suggested')
            elif t not in mine and t in relaxed:
                raise Problem(f'suggest({w!r}): {t!r} ({k}) needs an entry that must not be suggested')
        return relaxed


DENSE = dict(SUG, alphabet='ab', words=(14, 40), stem=(1, 5), homonym=.02, TRY=1., MAXCPDSUGS=.6, MAXNGRAMSUGS=.6)


class S03(SugCheck):
    id = 'S03'
    technique = 'invariant monitor on suggestion lists (uniqueness, limits) with model attribution'
    profiles = [(profile(**dict(DENSE, **NOCOMP)), 3), (profile(**dict(DENSE, COMPOUNDFLAG=(1., .9), stem=(1, 3), COMPOUNDMIN=1.)), 2),
                (profile(**dict(DENSE, alphabet=['abc', 'abcd'], words=(30, 70), stem=(2, 4))), 2),
                (profile(**dict(DENSE, alphabet=['abc'], words=(120, 180), stem=(2, 4), **NOCOMP)), 4),
                (profile(**dict(DENSE, phone=1., words=(10, 25), stem=(3, 6), alphabet=['abc', 'aeiostr'])), 2),
                (profile(**dict(SUG, dash=.3, words=(6, 20), NOSPLITSUGS=.4)), 1),
                (profile(**dict(DENSE, oconv=.8, rep=.6, map=.6)), 1), (profile(**dict(DENSE, cap=.5, homonym=.4)), 1)]
    fixtures = .03
    nwords = 10
    maxlen = 7
    quick, thorough = 1800, 10000
    need = {'evaluations': 10000, 'limit of 15 reached': 100, 'MAXCPDSUGS reached': 300, 'MAXNGRAMSUGS reached': 1000,
            'phonetic limit reached': 300}

    def prepare(self, sm, w):
        """text -> the (variant, round) pairs that may produce it"""
        ct, variants = sm.c.corrections(w)
        by = {}
        for i, v in enumerate(variants):
            if i and sm.valid(v):
                t = sm.finish(v, w, ct)
                by.setdefault(t, set()).add('case')
            for comp in (False, True):
                for kind, raw in sm.round(v, comp):
                    t = sm.finish(raw, w, ct)
                    by.setdefault(t, set()).add((i, comp))
        return by

    def judge_word(self, sm, d, w, pre, got, rec):
        texts = [t for t, _ in got]
        if len(set(texts)) != len(texts):
            dup = next(t for t in texts if texts.count(t) > 1)
            raise Problem(f'suggest({w!r}) gave {dup!r} twice')
        rec.count('texts compared for uniqueness', len(texts))
        per = {}
        for t, k in got:
            if k in GUESS or k in ('dashes', 'forceucase', 'case'):
                continue
            ways = pre.get(t, ())
            if len(ways) == 1 and 'case' not in ways:
                per.setdefault(min(ways), []).append(t)
        for (i, comp), ts in per.items():
            limit = sm.maxcpd if comp else 15
            rec.count('MAXCPDSUGS reached' if comp else 'limit of 15 reached', len(ts) == limit)
            if len(ts) > max(0, limit):
                raise Problem(f'suggest({w!r}): {len(ts)} {"compound" if comp else "simple"} corrections for case variant {i}, '
                              f'the limit is {limit}: {ts}')
        ng = sum(k == 'ngram' for _, k in got)
        ph = sum(k == 'phonet' for _, k in got)
        rec.count('MAXNGRAMSUGS reached', ng == sm.maxngram)
        rec.count('phonetic limit reached', ph == 2)
        if ng > sm.maxngram:
            raise Problem(f'suggest({w!r}): {ng} n-gram guesses, the limit is {sm.maxngram}')
        if ph > 2:
            raise Problem(f'suggest({w!r}): {ph} phonetic guesses')


MISTAKES = {'swapchar', 'longswapchar', 'badcharkey', 'extrachar', 'forgotchar', 'badchar', 'movechar', 'doubletwochars',
            'spaceword', 'twowords', 'uppercase', 'case'}


class S04(SugCheck):
    id = 'S04'
    sizes = [('', 92), ('long', 6), ('some', 2.5)]
    quick, thorough = 1200, 8000
    technique = 'reference-model monitor: corrections of planted mistakes must be present'
    profiles = [(profile(**dict(SUG, **NOCOMP)), 5), (profile(**dict(SUG, **dict(NOCOMP, stem=(3, 8), alphabet=['abcde', 'aeiostr', 'abcdefghijkl']))), 4),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .6), stem=(2, 4))), 2), (profile(**dict(SUG, cap=.4, phrase=.2)), 2),
                (profile(**dict(SUG, KEY=1.)), 1)]
    nwords = 20
    maxlen = 11
    mix = [('mutant', 10), ('wrong', 1), ('compound', 1), ('low', 1)]
    need = dict({'evaluations': 20000, 'expected: swapchar': 1500, 'expected: longswapchar': 800, 'expected: badcharkey': 1000,
                 'expected: extrachar': 2000, 'expected: forgotchar': 2000, 'expected: movechar': 1000, 'expected: badchar': 1500,
                 'expected: doubletwochars': 300, 'expected: spaceword': 100, 'expected: twowords': 1000, 'expected: case': 300})

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        for _ in range(14):
            w = self.mistake(rng, wg, wg.form())
            if w and len(w) <= self.maxlen and w not in out:
                out.append(w)
        for k in (0, 1, 2, 3, 4, 4, 5, 5, 5, 5, 6) if self.maxlen > S04.maxlen else ():
            # far from the start of long words
            w = self.mistake(rng, wg, wg.form(), k)
            if w and len(w) <= self.maxlen and w not in out:
                out.append(w)
        return out

    def judge_word(self, sm, d, w, pre, got, rec):
        texts = {t for t, _ in got}
        for s in pre[0]:
            if s.kind in MISTAKES:
                rec.count(f'expected: {s.kind}')
                if s.text not in texts:
                    raise Problem(f'suggest({w!r}): {s.text!r} is missing ({s.kind} of {s.variant!r}), got {[t for t, _ in got]}')
        return pre[0]


class S05(SugCheck):
    id = 'S05'
    technique = 'reference-model monitor on the order and the end of suggestion lists'
    profiles = [(profile(**dict(SUG, rep=.4, map=.3, phrase=.15, alphabet=['ab', 'abc'], stem=(1, 5))), 4),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .7), COMPOUNDMIN=.9, stem=(1, 4), rep=.4, map=.4, phrase=.1)), 3),
                (profile(**dict(SUG, cap=.5, FORCEUCASE=(.2, .3))), 2), (profile(**dict(SUG, words=(20, 50), stem=(2, 4), alphabet='abc')), 1),
                (profile(**dict(SUG, FORCEUCASE=(1., .5), COMPOUNDFLAG=(1., .7), alphabet='abc', stem=(2, 3), COMPOUNDMIN=1.)), 1),
                (profile(**dict(SUG, phrase=.4, alphabet='ab', stem=(1, 4))), 1),
                (profile(**SUG), 1)]
    need = {'evaluations': 20000, 'lists with several kinds': 5000, 'lists with simple and compound words': 500, 'ended by a phrase': 100,
            'followed by guesses': 3000, 'guesses suppressed': 1500, 'forced upper case': 25}

    def judge_word(self, sm, d, w, pre, got, rec):
        want, over = pre
        mine = [(s.text, s.kind) for s in want]
        theirs = [(t, k) for t, k in got if k not in GUESS and k != 'dashes']
        rec.count('lists with several kinds', len({k for _, k in mine}) > 1)
        rec.count('lists with simple and compound words', len({s.compound for s in want} - {None}) > 1)
        rec.count('ended by a phrase', any(s.kind == 'spaceword' and s.compound is False for s in want))
        rec.count('guesses suppressed', over)
        rec.count('forced upper case', any(s.kind == 'forceucase' for s in want))
        if mine != theirs:
            raise Problem(f'suggest({w!r}): corrections are {theirs}, expected {mine}')
        tail = got[len(theirs):]
        rec.count('followed by guesses', bool(tail))
        if any(k not in GUESS and k != 'dashes' for _, k in tail):
            raise Problem(f'suggest({w!r}): corrections after guesses: {got}')
        order = {'dashes': 0, 'ngram': 1, 'phonet': 2}
        ks = [order[k] for _, k in tail]
        if ks != sorted(ks):
            raise Problem(f'suggest({w!r}): wrong order of guesses: {got}')
        if over and tail:
            raise Problem(f'suggest({w!r}): guesses {tail} although a decisive correction was found')
        if not over and not tail and '-' not in w:
            ng = sm.ngrams(w, [t for t, _ in got])
            if ng:
                raise Problem(f'suggest({w!r}): no guesses were made, expected {ng}')
        return mine


class S06(SugCheck):
    id = 'S06'
    quick, thorough = 1600, 10000
    technique = 'reference-model monitor on the final spelling of suggestions'
    CASES = dict(SUG, cap=.4, KEEPCASE=(.5, .3), FORBIDDENWORD=(.3, .15), homonym=.25)
    profiles = [(profile(**CASES), 4), (profile(**dict(SUG, oconv=1.)), 3), (profile(**dict(CASES, oconv=.8, rep=.4)), 1),
                (profile(**dict(CASES, german=1.)), 1), (profile(**dict(CASES, turkic=1.)), 1),
                (profile(**dict(CASES, phrase=.2, rep=.5, words=(8, 16), stem=(1, 4))), 2),
                (profile(**dict(CASES, oconv=.7, dash=.2, phone=.7)), 1),
                (profile(**dict(SUG, oconv=.8, COMPOUNDFLAG=(1., .8), FORCEUCASE=(1., .5), stem=(1, 4), COMPOUNDMIN=.8)), 1)]
    need = {'evaluations': 20000, 'converted compounds with a forced capital': 18, 'recased suggestions': 10000, 'converted suggestions': 1500, 'guesses': 3000,
            'capital after the split': 50}

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        out = [wg.recase(w) if rng.random() < .4 else w for w in out]
        for _ in range(2):
            # aNew
            a, b = rng.choice(wg.stems), rng.choice(wg.stems)
            w = a + b[:1].upper() + b[1:]
            out += [x for x in (w, w[:1].upper() + w[1:]) if len(x) <= self.maxlen]
        forced = [e.stem for e in wg.spec.words if wg.spec.flags.get('FORCEUCASE') in e.flags]
        if forced and 'COMPOUNDFLAG' in wg.spec.flags:
            out += [(rng.choice(wg.stems) + rng.choice(forced)).lower() for _ in range(6)]
        return [w for w in dict.fromkeys(out) if not wg.m.sharps or w.upper().count('SS') + w.count('ß') <= 3]

    def judge_word(self, sm, d, w, pre, got, rec):
        want, over = pre
        mine = {s.text for s in want}
        corr = [t for t, k in got if k not in GUESS and k != 'dashes']
        for s in want:
            rec.count('recased suggestions', s.text != s.raw)
            rec.count('capital after the split', ' ' in s.text and s.text != s.raw and sm.c.captype(w) in ('huh', 'huhinit'))
            if sm.m.oconv:
                rec.count('converted suggestions', sm.m.oconv(s.raw) != s.raw)
                rec.count('converted compounds with a forced capital', s.kind == 'forceucase' and sm.m.oconv(s.raw) != s.raw)
        if set(corr) != mine or len(corr) != len(mine):
            raise Problem(f'suggest({w!r}): corrections are {corr}, expected {[s.text for s in want]}')
        if not over:
            rest = [(t, k) for t, k in got if k in GUESS or k == 'dashes']
            handled = [t for t, k in got if k not in GUESS]
            ng = sm.ngrams(w, handled)
            if ng is None:
                rec.count('undetermined guesses')
                return mine
            theirs = [t for t, k in rest if k == 'ngram']
            rec.count('guesses', len(ng))
            if sorted(theirs) != sorted(ng):
                raise Problem(f'suggest({w!r}): n-gram guesses are {theirs}, expected {ng}')
            ph = sm.phonets(w, handled + ng)
            theirs = [t for t, k in rest if k == 'phonet']
            if sorted(theirs) != sorted(ph):
                raise Problem(f'suggest({w!r}): phonetic guesses are {theirs}, expected {ph}')
        return mine


class S07(SugCheck):
    id = 'S07'
    quick, thorough = 1300, 8000
    technique = 'reference-model monitor on table-driven suggestions'
    T = dict(SUG, rep=.9, words=(6, 18))
    profiles = [(profile(**dict(T, **NOCOMP)), 3), (profile(**dict(T, map=.9)), 3), (profile(**dict(T, rep=.3, ph=.6)), 3),
                (profile(**dict(T, phrase=.3, map=.3)), 2), (profile(**dict(T, alphabet='ab', stem=(2, 6), map=.6)), 2),
                (profile(**dict(T, cap=.4, map=.5, ph=.3)), 1)]
    fixture_filter = {'rep', 'reputf', 'map', 'maputf', 'ph', 'ph2', 'phone', 'base', 'base_utf', 'oconv', 'iconv', 'checkcompoundrep'}
    nwords = 18
    need = {'evaluations': 20000, 'expected: replchars': 4000, 'expected: mapchars': 2000, 'with several words': 300,
            'by a ph: tag': 300}

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        forms = [f for f in wg.forms if len(f) < self.maxlen] or wg.stems
        for _ in range(30):
            w = rng.choice(forms)
            k = rng.random()
            if wg.m.rep and k < .65:
                # apply a replacement backwards
                a, b = rng.choice(wg.m.rep)
                body = a[1:] if a.startswith('^') else a
                body = body[:-1] if body.endswith('$') else body
                b = b.replace('_', ' ')
                if rng.random() < .3:
                    w = rng.choice(forms) + ' ' + rng.choice(forms)
                places = [i for i in range(len(w)) if b and w.startswith(b, i)]
                if places:
                    i = rng.choice(places)
                    w = w[:i] + body + w[i + len(b):]
                elif rng.random() < .2:
                    w = body
                else:
                    continue
            elif wg.spec.map:
                opts = rng.choice(wg.spec.map)
                o = [x for x in opts if x in w]
                if not o:
                    continue
                o = rng.choice(o)
                other = rng.choice([x for x in opts if x != o])
                w = w.replace(o, other, rng.choice([1, 1, -1]))
            if rng.random() < .15:
                w = wg.recase(w)
            if w and len(w) <= self.maxlen and w not in out:
                out.append(w)
            if len(out) >= self.nwords * 1.6:
                break
        return out

    def judge_word(self, sm, d, w, pre, got, rec):
        kinds = ('replchars', 'mapchars')
        mine = [(s.text, s.kind) for s in pre[0] if s.kind in kinds]
        theirs = [(t, k) for t, k in got if k in kinds]
        for s in pre[0]:
            if s.kind in kinds:
                rec.count(f'expected: {s.kind}')
                rec.count('with several words', ' ' in s.raw)
        if len(sm.m.rep) > len(sm.spec.rep):
            rec.count('by a ph: tag', any(k == 'replchars' for _, k in mine))
        if mine != theirs:
            # another kind of correction may have come first with the same result
            raise Problem(f'suggest({w!r}): by tables {theirs}, expected {mine}')
        return mine


def decided(got):
    return any(k in DECISIVE or k == 'forceucase' for _, k in got)


class S08(SugCheck):
    id = 'S08'
    sizes = [('', 92), ('long', 6), ('some', 2.5)]
    stretch = 6
    quick, thorough = 1200, 8000
    technique = 'reference-model monitor: independent recomputation of the ranking'
    N = dict(SUG, **NOCOMP)
    N.update(MAXDIFF=.4, ONLYMAXDIFF=.2, MAXNGRAMSUGS=.4, rep=.05, words=(10, 40), stem=(3, 9), alphabet=['abcde', 'aeiostr', 'abcdefghijkl', 'абвгд'],
             sfx=(0, 3), pfx=(0, 2), aff_flag=.4)
    profiles = [(profile(**N), 5), (profile(**dict(N, ph=.3)), 2), (profile(**dict(N, words=(110, 220), alphabet=['abcdef', 'aeiostr'], stem=(3, 6))), 1),
                (profile(**dict(N, alphabet='abc', stem=(2, 6))), 2), (profile(**dict(N, cap=.4, NOSUGGEST=(.3, .2), FORBIDDENWORD=(.3, .2))), 1),
                (profile(**dict(N, phone=.6, MAXDIFF=.6)), 1), (profile(**dict(SUG, iconv=.2, dash=.2)), 1),
                (profile(**dict(N, words=(600, 2000), alphabet='aeiostrnlk', stem=(5, 10), aff_flag=.1, homonym=.02, nested=.02)), .08)]
    mix = [('mutant', 4), ('wrong', 2), ('random', 3), ('compound', 2), ('low', 1)]
    nwords = 12
    maxlen = 12
    need = {'evaluations': 12000, 'guessed words': 15000, 'guesses of affixed forms': 1500, 'no guesses expected': 1000,
            'stopped by MAXNGRAMSUGS': 2000, 'guesses among more than 100 entries': 500}

    def make_spec(self, rng):
        if rng.random() < .03:
            spec, words = many_similar(rng)
            return spec, words, 'many similar entries'
        return super().make_spec(rng)

    def make_words(self, rng, wg):
        out = SugCheck.make_words(self, rng, wg)
        for _ in range(8):
            # severely misspelled
            w = wg.form()
            for _ in range(rng.choice([2, 3, 4])):
                w = wg.mutate(w)
            if rng.random() < .15:
                w = wg.recase(w)
            if len(w) <= self.maxlen and w not in out:
                out.append(w)
        return out

    def prepare(self, sm, w):
        return sm.corrections(w)

    def judge_word(self, sm, d, w, pre, got, rec):
        theirs = [t for t, k in got if k == 'ngram']
        if decided(got) or pre[1]:
            rec.count('decided before')
            if decided(got) and theirs:
                raise Problem(f'suggest({w!r}): n-gram guesses {theirs} although a decisive correction was found')
            return False
        handled = [t for t, k in got if k not in GUESS]
        mine = sm.ngrams(w, handled)
        if mine is None:
            rec.count('undetermined')
            return False
        rec.count('guessed words', len(mine))
        rec.count('guesses among more than 100 entries', len(sm.m.entries) > 100 and bool(mine))
        stems = {e.stem for e in sm.m.entries}
        rec.count('guesses of affixed forms', sum(t not in stems for t in mine))
        rec.count('no guesses expected', not mine)
        rec.count('stopped by MAXNGRAMSUGS', bool(mine) and len(mine) == sm.maxngram)
        if theirs != mine:
            raise Problem(f'suggest({w!r}): n-gram guesses are {theirs}, expected {mine} (after {handled})')
        return mine


class S09(SugCheck):
    id = 'S09'
    sizes = [('', 92), ('long', 6), ('some', 2.5)]
    stretch = 6
    quick, thorough = 1300, 8000
    technique = 'reference-model monitor: independent recomputation of phonetic codes and ranking'
    P = dict(SUG, **NOCOMP)
    P.update(phone=1., words=(8, 30), stem=(2, 8), alphabet=['abcde', 'aeiostr', 'abcdefghijkl', 'abc'], MAXNGRAMSUGS=.7, rep=.05)
    profiles = [(profile(**P), 6), (profile(**dict(P, alphabet=['абвг', 'äöab'])), 1), (profile(**dict(P, cap=.4, ph=.1)), 1),
                (profile(**dict(P, phone=.0)), .3), (profile(**dict(P, NOSUGGEST=(.4, .2), FORBIDDENWORD=(.4, .2), words=(15, 40))), 1),
                (profile(**dict(P, words=(600, 2000), alphabet='aeiostrnlk', stem=(5, 10), aff_flag=.1, homonym=.02, nested=.02)), .08)]
    fixture_filter = {'phone'}
    fixtures = .04
    mix = [('mutant', 5), ('wrong', 2), ('random', 2), ('compound', 2), ('low', 1)]
    nwords = 14
    maxlen = 12
    need = {'evaluations': 15000, 'phonetic guesses': 6000, 'no guesses expected': 1000, 'two guesses': 1500}

    make_words = S08.make_words

    def make_spec(self, rng):
        if rng.random() < .03:
            spec, words = many_similar(rng, phone=True)
            return spec, words, 'many similar entries'
        return super().make_spec(rng)

    def judge_word(self, sm, d, w, pre, got, rec):
        theirs = [t for t, k in got if k == 'phonet']
        if sm.spec.phone is None:
            if theirs:
                raise Problem(f'suggest({w!r}): phonetic guesses {theirs} without a table')
            rec.count('without a table')
            return False
        if decided(got) or pre[1]:
            if decided(got) and theirs:
                raise Problem(f'suggest({w!r}): phonetic guesses {theirs} although a decisive correction was found')
            rec.count('decided before')
            return False
        mine = sm.phonets(w, [t for t, k in got if k != 'phonet'])
        rec.count('phonetic guesses', len(mine))
        rec.count('no guesses expected', not mine)
        rec.count('two guesses', len(mine) == 2)
        if theirs != mine:
            raise Problem(f'suggest({w!r}): phonetic guesses are {theirs}, expected {mine}; code {sm.code(w.lower())!r}')
        return mine


class S10(SugCheck):
    id = 'S10'
    quick, thorough = 900, 5000
    technique = 'reference-model monitor on suggestions for dashed words'
    D = dict(SUG, **NOCOMP)
    D.update(words=(5, 14), stem=(1, 5), dash=.1, brk=.25, NOSPLITSUGS=.4, rep=.05, cap=.15)
    profiles = [(profile(**D), 5), (profile(**dict(D, dash=.4)), 2), (profile(**dict(D, NOSUGGEST=(.5, .2), FORBIDDENWORD=(.5, .2))), 1),
                (profile(**dict(D, COMPOUNDFLAG=(1., .6))), .5), (profile(**dict(D, oconv=.3, iconv=.3, KEEPCASE=(.4, .3))), 1)]
    fixture_filter = {'break', 'breakdefault', 'breakoff', 'base', 'wordpair', 'opentaal_forbiddenword1', 'checkcompoundcase2'}
    nwords = 16
    maxlen = 20
    need = {'evaluations': 15000, 'corrected in place': 4000, 'dashed words': 15000, 'first part wrong': 1500, 'later part wrong': 2000}

    def make_words(self, rng, wg):
        out = []
        for _ in range(self.nwords * 3):
            n = rng.choice([2, 2, 2, 3, 3, 4])
            bad = rng.randrange(n)
            parts = []
            for i in range(n):
                x = wg.form()
                if i == bad or rng.random() < .12:
                    x = self.mistake(rng, wg, x) if rng.random() < .8 else wg.mutate(wg.mutate(x))
                if rng.random() < .1:
                    x = wg.recase(x)
                parts.append(x)
            w = '-'.join(parts)
            if rng.random() < .05:
                w = rng.choice(['-' + w, w + '-', w.replace('-', '--')])
            if rng.random() < .05:
                w = wg.recase(w)
            if '-' in w and len(w) <= self.maxlen and w.count('-') <= 5 and w not in out:
                out.append(w)
            if len(out) >= (self.nwords if self.maxlen == S10.maxlen else 5):
                break
        return out

    def judge_word(self, sm, d, w, pre, got, rec):
        theirs = [t for t, k in got if k == 'dashes']
        rec.count('dashed words', '-' in w)
        if decided(got) or pre[1]:
            if decided(got) and theirs:
                raise Problem(f'suggest({w!r}): {theirs} although a decisive correction was found')
            rec.count('decided before')
            return False
        handled = [t for t, k in got if k not in GUESS and k != 'dashes']
        if '-' not in w or any('-' in h for h in handled):
            if theirs:
                raise Problem(f'suggest({w!r}): {theirs} although there are dashed suggestions already: {handled}')
            rec.count('dashed before')
            return False
        found = sm.dash_chunk(w)
        if not found:
            mine = []
            rec.count('no misspelled part')
        else:
            # the part's own suggestions as spylls gives them
            mine = sm.dashes(w, handled, suggest=lambda chunk: ask_sug(d, chunk))
            rec.count('first part wrong' if found[1] == 0 else 'later part wrong')
        rec.count('corrected in place', len(mine))
        if theirs != mine:
            raise Problem(f'suggest({w!r}): in place {theirs}, expected {mine}')
        return mine
