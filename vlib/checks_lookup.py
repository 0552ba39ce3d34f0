"""Checks of lookup: A01-A03, C01, C02, F01, M01-M04, B01, I01, G01"""
from .common import LookupCheck, SpecCheck, guarded, ask
from .gen import profile
from .harness import Problem
from .model import Ana, TooExpensive

RULE = ('A case is a generated dictionary (or a mutated fixture dictionary) written to files and loaded, with words made '
        'from its derivable forms, forms with an affix put on without permission, compounds, mutations, recasings. '
        'An evaluation is one lookup compared with the reference model; it is non-trivial if the word is not '
        'literally a dictionary entry.')

NOCOMP = dict(COMPOUNDFLAG=(0, 0), COMPOUNDBEGIN=(0, 0), COMPOUNDMIDDLE=(0, 0), COMPOUNDEND=(0, 0), crules=0,
              FORCEUCASE=(0, 0), COMPOUNDPERMITFLAG=(0, 0), COMPOUNDFORBIDFLAG=(0, 0))
AFFIXY = dict(NOCOMP, pfx=(0, 3), sfx=(1, 4), rules=(1, 4), cont=.3, words=(4, 18))


def has_compounds(spec):
    return bool({'COMPOUNDFLAG', 'COMPOUNDBEGIN'} & set(spec.flags)) or bool(spec.crules)


class A01(LookupCheck):
    id = 'A01'
    rule = RULE
    direction = 'accept'
    profiles = [(profile(**AFFIXY), 6), (profile(**dict(AFFIXY, complex=1., pfx=(2, 4))), 2),
                (profile(**dict(AFFIXY, homonym=.5)), 1), (profile(pfx=(0, 3), sfx=(0, 4)), 1)]
    mix = [('form', 10), ('wrong', 3), ('compound', .5), ('mutant', 1), ('low', 1), ('broken', .5)]
    quick, thorough = 9000, 60000
    nwords = 60
    need = {'accepted': 20000, 'accepted: suffix': 3000, 'accepted: prefix': 2000, 'accepted: suffix+suffix2': 1000,
            'accepted: prefix+suffix': 1000, 'accepted: prefix2+prefix': 300}


class A02(LookupCheck):
    id = 'A02'
    rule = RULE
    direction = 'reject'
    profiles = [(profile(**AFFIXY), 6), (profile(**dict(AFFIXY, complex=1., pfx=(2, 4))), 2),
                (profile(**dict(AFFIXY, homonym=.5)), 1), (profile(**dict(NOCOMP, cap=.4)), 1)]
    mix = [('form', 3), ('wrong', 10), ('compound', .5), ('mutant', 4), ('low', 1), ('broken', 1), ('random', 1)]
    quick, thorough = 9000, 60000
    nwords = 60
    need = {'rejected': 40000, 'accepted': 5000}

    def accepts(self, spec):
        return not has_compounds(spec)


class A03(LookupCheck):
    id = 'A03'
    rule = RULE
    RESTR = dict(pfx=(1, 3), sfx=(1, 4), cross=.55, NEEDAFFIX=(.6, .3), CIRCUMFIX=(.5, .5), ONLYINCOMPOUND=(.4, .3),
                 affix_special=.8, aff_flag=.5, words=(4, 14), KEEPCASE=(.03, .1), FORBIDDENWORD=(.03, .1))
    profiles = [(profile(**dict(NOCOMP, **RESTR)), 5), (profile(**dict(NOCOMP, **dict(RESTR, complex=1., cont=.5))), 2),
                (profile(**dict(RESTR, COMPOUNDFLAG=(.7, .5), COMPOUNDMIN=.8)), 2)]
    mix = [('form', 5), ('wrong', 8), ('compound', 1), ('low', .5), ('mutant', 1)]
    fixture_filter = {'needaffix', 'needaffix2', 'needaffix3', 'needaffix4', 'needaffix5', 'circumfix', 'onlyincompound',
                      'onlyincompound2', 'complexprefixes', 'complexprefixes2', 'complexprefixesutf', 'affixes', 'fogemorpheme',
                      'fullstrip', 'germancompounding', 'zeroaffix', 'conditionalprefix'}
    quick, thorough = 9000, 60000
    nwords = 60
    need = {'rejected': 20000, 'accepted': 8000}

    def accepts(self, spec):
        return bool({'NEEDAFFIX', 'CIRCUMFIX', 'ONLYINCOMPOUND'} & set(spec.flags)) or any(not a.cross for a in spec.affixes)


class C01(LookupCheck):
    id = 'C01'
    rule = RULE
    CASES = dict(cap=.6, KEEPCASE=(.5, .35), homonym=.3, words=(3, 14), pfx=(0, 2), sfx=(0, 2), aff_flag=.3)
    profiles = [(profile(**dict(NOCOMP, **CASES)), 6),
                (profile(**dict(NOCOMP, **dict(CASES, alphabet=['aßs', 'ǆaǅ', 'ﬁab', 'iİa', 'абв', 'άσς', "a'b", 'aª1', 'ŉa']))), 1),
                (profile(**dict(CASES, COMPOUNDFLAG=(.6, .5))), 1)]
    mix = [('form', 6), ('wrong', 1), ('low', 4), ('mutant', 2), ('compound', .5), ('broken', 1)]
    quick, thorough = 9000, 60000
    nwords = 60
    need = {'rejected': 20000, 'accepted': 15000, 'accepted: bare recased': 5000}

    def make_words(self, rng, wg):
        out = []
        for w in wg.words(self.nwords // 3, self.mix, self.maxlen):
            out.append(w)
            for _ in range(2):
                r = wg.recase(w)
                if r not in out:
                    out.append(r)
        return out


class C02(C01):
    id = 'C02'
    CASES = dict(cap=.35, KEEPCASE=(.5, .35), homonym=.3, words=(3, 14), pfx=(0, 2), sfx=(0, 2), aff_flag=.3)
    profiles = [(profile(**dict(NOCOMP, **dict(CASES, german=1.))), 5), (profile(**dict(NOCOMP, **dict(CASES, turkic=1.))), 5),
                (profile(**dict(CASES, german=.5, turkic=1., COMPOUNDFLAG=(.5, .5)), ), 1)]
    fixtures = .05
    fixture_filter = {'checksharps', 'germancompounding', 'germancompoundingold', 'IJ', 'dotless_i', 'keepcase'}
    need = {'rejected': 10000, 'accepted': 10000, 'sharp s asked': 3000, 'turkic i asked': 3000}

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        if wg.m.sharps:
            for w in list(out):
                for a, b in (('ß', 'SS'), ('ß', 'ss'), ('SS', 'ß'), ('ß', 'S'), ('ß', 'sS'), ('ss', 'ß'), ('ß', 'ẞ')):
                    if a in w and rng.random() < .3:
                        v = w.replace(a, b)
                        if rng.random() < .6:
                            v = v.upper() if b == 'SS' else v.replace('ß', '\0').upper().replace('\0', 'ß')
                        out.append(v)
        elif wg.m.casing.kind == 'turkic':
            for w in list(out):
                if rng.random() < .5:
                    out.append(w.upper())
                    out.append(w.translate(str.maketrans('iıIİ', rng.choice(['ııII', 'iiİİ', 'ıiİI', 'IİIİ', 'iıiı']))))
        out = list(dict.fromkeys(out))
        return [w for w in out if w.upper().count('SS') + w.count('ß') <= 3]

    def judge(self, inp, rec):
        super().judge(inp, rec)
        if 'CHECKSHARPS' in inp['spec'].bools:
            rec.count('sharp s asked', sum('ß' in w or 'SS' in w for w in inp['words']))
        elif inp['spec'].strs.get('LANG'):
            rec.count('turkic i asked', sum(any(c in w for c in 'iıİI') for w in inp['words']))


class F01(LookupCheck):
    id = 'F01'
    rule = RULE
    FORB = dict(FORBIDDENWORD=(1., .25), homonym=.35, nested=.3, concat=.25, words=(4, 16), aff_flag=.45, sfx=(1, 3), cap=.15)
    profiles = [(profile(**dict(NOCOMP, **FORB)), 4), (profile(**dict(FORB, COMPOUNDFLAG=(.9, .6), COMPOUNDMIN=.9)), 4),
                (profile(**dict(FORB, crules=1., COMPOUNDMIN=1., COMPOUNDFLAG=(.3, .4))), 1),
                (profile(**dict(NOCOMP, **dict(FORB, iconv=.5, ignore=.3, brk=.5, dash=.2))), 1)]
    mix = [('form', 5), ('wrong', 3), ('compound', 5), ('broken', 3), ('mutant', 1), ('low', 1)]
    maxlen = 14
    quick, thorough = 9000, 60000
    need = {'rejected': 20000, 'accepted': 10000, 'forbidden words asked': 2000}
    fixture_filter = {'forbiddenword', 'compoundforbid', 'allcaps', 'opentaal_forbiddenword1', 'opentaal_forbiddenword2',
                      'keepcase', 'affixes', 'compoundaffix', 'break', 'compoundrule'}

    def accepts(self, spec):
        return 'FORBIDDENWORD' in spec.flags

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        f = wg.spec.flags['FORBIDDENWORD']
        bad = [w.stem for w in wg.spec.words if f in w.flags]
        for w in bad[:6]:
            out += [w, wg.recase(w), w.upper(), w[:1].upper() + w[1:], wg.form() + '-' + w, w + '-' + wg.form()]
            out.append(w + rng.choice(wg.stems) if rng.random() < .5 else rng.choice(wg.stems) + w)
            if wg.rules:
                a, r = rng.choice(wg.rules)
                x = (w[:-len(r.strip)] if r.strip and w.endswith(r.strip) else w) + r.add if a.kind == 'S' else r.add + w
                out += [x, wg.recase(x)]
        return [w for w in dict.fromkeys(out) if len(w) <= self.maxlen + 6]

    def judge(self, inp, rec):
        f = inp['spec'].flags.get('FORBIDDENWORD')
        bad = {w.stem for w in inp['spec'].words if f in w.flags}
        rec.count('forbidden words asked', sum(w in bad for w in inp['words']))
        super().judge(inp, rec)


COMP = dict(words=(4, 14), stem=(1, 4), COMPOUNDMIN=.9, sfx=(0, 2), pfx=(0, 1), cap=.1, phrase=.02, concat=.15, KEEPCASE=(.03, .2),
            FORBIDDENWORD=(.05, .1), NEEDAFFIX=(.05, .2))
CMIX = [('compound', 10), ('form', 1), ('wrong', 1), ('mutcomp', 3), ('mutant', 1), ('broken', .5)]


class Compounds(LookupCheck):
    rule = RULE
    sizes = [('', 94.5), ('long', 2.5), ('vast', .5), ('many', 2.5)]
    mix = CMIX
    maxlen = 13
    nwords = 50
    quick, thorough = 7000, 45000
    cap = 1500

    def accepts(self, spec):
        return has_compounds(spec)


class M01(Compounds):
    id = 'M01'
    profiles = [(profile(**dict(COMP, COMPOUNDFLAG=(1., .5), COMPOUNDWORDMAX=.4)), 2),
                (profile(**dict(COMP, COMPOUNDBEGIN=(1., .4), COMPOUNDMIDDLE=(.7, .4), COMPOUNDEND=(.9, .4), COMPOUNDFLAG=(.2, .2),
                                COMPOUNDWORDMAX=.4)), 4),
                (profile(**dict(COMP, COMPOUNDBEGIN=(1., .3), COMPOUNDMIDDLE=(1., .3), COMPOUNDEND=(1., .3), COMPOUNDFLAG=(.5, .2),
                                COMPOUNDWORDMAX=.5, sfx=(1, 3), affix_special=.6, alphabet='ab')), 2)]
    need = {'rejected': 20000, 'accepted: compound of 2 by flags': 3000, 'accepted: compound of 3 by flags': 800,
            'accepted: compound of 4+ by flags': 100}
    fixture_filter = {'compoundflag', 'germancompounding', 'compoundaffix', 'compoundaffix2', 'compoundaffix3', 'wordpair',
                      'onlyincompound', 'checkcompoundcase', 'compoundforbid', 'opentaal_cpdpat', 'utfcompound', 'maputf',
                      'digits_in_words', 'germancompoundingold', 'fogemorpheme', 'simplifiedtriple', 'checkcompounddup'}


class M02(Compounds):
    id = 'M02'
    AFX = dict(COMP, pfx=(1, 2), sfx=(1, 3), aff_flag=.5, COMPOUNDPERMITFLAG=(.7, .6), COMPOUNDFORBIDFLAG=(.5, .15),
               affix_special=.5, COMPOUNDWORDMAX=.1, cont=.2, words=(4, 10))
    profiles = [(profile(**dict(AFX, COMPOUNDFLAG=(1., .6))), 4),
                (profile(**dict(AFX, COMPOUNDBEGIN=(1., .4), COMPOUNDMIDDLE=(.8, .4), COMPOUNDEND=(1., .4))), 4),
                (profile(**dict(AFX, COMPOUNDFLAG=(1., .6), complex=1., cont=.5, pfx=(2, 3))), 1)]
    mix = [('compound', 4), ('affcomp', 8), ('form', 1), ('mutcomp', 1)]
    maxlen = 15
    need = {'rejected': 20000, 'accepted: compound of 2 by flags': 3000, 'affixed compounds accepted': 2000}
    fixture_filter = {'compoundaffix', 'compoundaffix2', 'compoundaffix3', 'germancompounding', 'fogemorpheme',
                      'compoundforbid', 'onlyincompound'}

    def make_words(self, rng, wg):
        out = []
        for _ in range(self.nwords * 2):
            if rng.random() < .25:
                w = wg.compound()
            else:
                n = rng.choice([2, 2, 2, 3])
                w = ''.join(rng.choice([wg.wrong_form, wg.form, lambda: rng.choice(wg.stems)])() for _ in range(n))
            if rng.random() < .06:
                w = wg.recase(w)
            if len(w) <= self.maxlen and w not in out:
                out.append(w)
            if len(out) == self.nwords:
                break
        return out

    def judge(self, inp, rec):
        super().judge(inp, rec)
        if '_model' in inp:
            m = inp['_model']
            for w in inp['words']:
                m.limit(self.cap)
                try:
                    for a in m.good_forms(w, affix=False):
                        if any(x is not None and (x.p or x.s) for _, x in a):
                            rec.count('affixed compounds accepted')
                        break
                except TooExpensive:
                    pass


class M03(Compounds):
    id = 'M03'
    R = dict(COMP, COMPOUNDFLAG=(1., .7), sfx=(0, 1), pfx=(0, 1), COMPOUNDWORDMAX=.1)
    profiles = [(profile(**dict(R, CHECKCOMPOUNDDUP=.9)), 2), (profile(**dict(R, CHECKCOMPOUNDCASE=1., cap=.35)), 2),
                (profile(**dict(R, CHECKCOMPOUNDTRIPLE=1., SIMPLIFIEDTRIPLE=.4, alphabet='ab')), 2),
                (profile(**dict(R, SIMPLIFIEDTRIPLE=1., alphabet='ab', stem=(2, 4))), 2),
                (profile(**dict(R, CHECKCOMPOUNDREP=1., concat=.3)), 2), (profile(**dict(R, pats=1., sfx=(0, 2))), 3),
                (profile(**dict(R, FORCEUCASE=(1., .4), cap=.2)), 2), (profile(**dict(R, phrase=.4)), 2),
                (profile(**dict(R, CHECKCOMPOUNDDUP=.4, CHECKCOMPOUNDCASE=.3, CHECKCOMPOUNDTRIPLE=.4, CHECKCOMPOUNDREP=.3, pats=.4,
                                FORCEUCASE=(.4, .3), phrase=.2, SIMPLIFIEDTRIPLE=.4, cap=.2)), 2)]
    need = {'rejected': 15000, 'accepted: compound of 2 by flags': 3000, 'compounds rejected by a restriction': 2000}
    fixture_filter = {'checkcompounddup', 'checkcompoundcase', 'checkcompoundcase2', 'checkcompoundcaseutf', 'checkcompoundtriple',
                      'checkcompoundrep', 'checkcompoundrep2', 'checkcompoundpattern', 'checkcompoundpattern2',
                      'checkcompoundpattern3', 'checkcompoundpattern4', 'simplifiedtriple', 'forceucase', 'opentaal_cpdpat',
                      'opentaal_cpdpat2', 'wordpair', 'germancompounding'}

    def judge(self, inp, rec):
        super().judge(inp, rec)
        if '_model' in inp:
            m = inp['_model']
            for w in inp['words']:
                m.limit(self.cap)
                try:
                    if not m.lookup(w) and any(True for _ in m.flag_compounds(w, m.casing.captype(w), True)):
                        rec.count('compounds rejected by a restriction')
                except TooExpensive:
                    pass

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        extra = []
        for _ in range(8):
            a = rng.choice(wg.stems)
            b = rng.choice(wg.stems)
            extra += [a + a, a + b + b, b + a + a, a[:-1] + b if a and b and a[-1] == b[0] else a + b.capitalize(),
                      (a + b).capitalize(), a + b]
            for x in wg.stems:
                if ' ' in x and rng.random() < .3:
                    extra += [x.replace(' ', ''), x.replace(' ', '') + a]
        for a, b in wg.spec.rep:
            t = rng.choice(wg.stems)
            b = b.replace('_', ' ')
            if b and b in t:
                extra.append(t.replace(b, a.strip('^$'), 1))
        out += [w for w in dict.fromkeys(extra) if w and len(w) <= self.maxlen and w not in out]
        return out


class M04(Compounds):
    id = 'M04'
    R = dict(COMP, crules=1., sfx=(0, 1), pfx=(0, 1), stem=(1, 3), COMPOUNDFLAG=(.15, .3), COMPOUNDWORDMAX=.3, FORBIDDENWORD=(.2, .15),
             homonym=.3, NOSUGGEST=(.1, .2))
    profiles = [(profile(**R), 3), (profile(**dict(R, alphabet='ab', words=(3, 8))), 3),
                (profile(**dict(R, CHECKCOMPOUNDDUP=.3, CHECKCOMPOUNDTRIPLE=.2, CHECKCOMPOUNDCASE=.2, digit=.3)), 1)]
    maxlen = 9
    need = {'rejected': 20000, 'accepted: compound of 2 by rule': 2000, 'accepted: compound of 3 by rule': 1000,
            'accepted: compound of 4+ by rule': 300}
    fixture_filter = {'compoundrule', 'compoundrule2', 'compoundrule3', 'compoundrule4', 'compoundrule5', 'compoundrule6',
                      'compoundrule7', 'compoundrule8'}

    def accepts(self, spec):
        return bool(spec.crules)

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        # sequences made along a rule, right or nearly right
        by_flag = {}
        for e in wg.spec.words:
            for f in e.flags:
                by_flag.setdefault(f, []).append(e.stem)
        for _ in range(40):
            rule = rng.choice(wg.spec.crules)
            w = ''
            for f, q in rule:
                n = {'': 1, '*': rng.choice([0, 1, 2, 3]), '?': rng.choice([0, 1])}[q]
                if rng.random() < .08:
                    n = rng.choice([0, 2])
                for _ in range(n):
                    pool = by_flag.get(f) if rng.random() < .92 else wg.stems
                    w += rng.choice(pool or wg.stems)
            if w and len(w) <= self.maxlen + 3 and w not in out:
                out.append(w)
        return out


class B01(LookupCheck):
    id = 'B01'
    rule = RULE
    R = dict(NOCOMP, brk=.75, dash=.25, apos=.1, words=(4, 14), stem=(1, 4), sfx=(0, 1), pfx=(0, 1), cap=.2, phrase=.02)
    profiles = [(profile(**R), 5), (profile(**dict(R, brk=1., alphabet=['ab', 'abc'])), 3),
                (profile(**dict(R, FORBIDDENWORD=(.5, .2), KEEPCASE=(.3, .2))), 1), (profile(**dict(R, COMPOUNDFLAG=(1., .5))), .5)]
    mix = [('broken', 10), ('form', 1), ('mutant', 1), ('wrong', 1), ('compound', .5)]
    maxlen = 26
    quick, thorough = 6000, 40000
    fixture_filter = {'break', 'breakdefault', 'breakoff', 'opentaal_forbiddenword1', 'checkcompoundcase2', 'wordpair'}
    need = {'rejected': 20000, 'accepted: broken': 15000}

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        pats = [b for b in wg.breaks if b] or ['-']
        for _ in range(6):
            # many breaks, one-letter parts
            n = rng.choice([5, 8, 9, 10])
            one = [s for s in wg.stems if len(s) <= 2] or wg.stems
            b = rng.choice(pats)
            w = b.join(rng.choice(one) for _ in range(n))
            if sum(w.count(x) for x in pats) <= 10:
                out.append(w)
            a = rng.choice(wg.stems)
            out += [b + a, a + b, b + a + b, b, b + b, a + b + b + a, '']
        # the work of breaking grows exponentially: not more than ten places, few of them in a word with wrong parts
        return [w for w in dict.fromkeys(out) if sum(1 for _ in wg.m.break_points(wg.m.prepare(w))) <= 10]


class I01(LookupCheck):
    id = 'I01'
    rule = RULE
    R = dict(NOCOMP, words=(4, 14), sfx=(0, 2), pfx=(0, 1), cap=.15)
    profiles = [(profile(**dict(R, iconv=1.)), 5), (profile(**dict(R, ignore=1.)), 3), (profile(**dict(R, iconv=1., ignore=.7)), 2),
                (profile(**dict(R, iconv=.5, FORBIDDENWORD=(.6, .3))), 1), (profile(**dict(R, digit=.3)), 1),
                (profile(**dict(R, ignore=1., ignored=['.', ',', '5', '.1', '-', '12345'])), 1)]
    mix = [('form', 6), ('number', 2), ('mutant', 2), ('wrong', 1), ('broken', 1)]
    quick, thorough = 9000, 60000
    fixture_filter = {'iconv', 'iconv2', 'ignore', 'ignoreutf', 'nepali', 'oconv2', 'digits_in_words', 'arabic', 'IJ', '1706659'}
    need = {'rejected': 20000, 'accepted': 10000, 'accepted: number': 500, 'converted words accepted': 1500,
            'ignored characters removed': 1000}

    def judge(self, inp, rec):
        m = self.model(inp)
        for w in inp['words']:
            if m.iconv and m.iconv(w) != w:
                rec.count('converted words')
                try:
                    m.limit(self.cap)
                    rec.count('converted words accepted', m.lookup(w))
                except TooExpensive:
                    pass
            if m.ignore & set(w):
                rec.count('ignored characters removed')
        super().judge(inp, rec)

    def make_words(self, rng, wg):
        out = super().make_words(rng, wg)
        for _ in range(4):
            a = str(rng.randrange(1000))
            out += [a, a + '.' + a, a + '.', '.' + a, a + '-' + a, a + rng.choice('.,:') + a + '.' + a, a + rng.choice(wg.chars)]
        return list(dict.fromkeys(out))


KWNAMES = ('capitalization', 'allow_nosuggest', 'affix_forms', 'compound_forms')


class G01(SpecCheck):
    id = 'G01'
    technique = 'reference-model monitor on reported analyses'
    sizes = [('', 94.5), ('long', 2.5), ('vast', .5), ('many', 2.5), ('huge', .4)]
    rule = ('A case is a generated or mutated fixture dictionary with words as for the lookup checks. An evaluation is the '
            'comparison of the complete set of reported analyses of a word with the set of derivations of the reference '
            'model, plus the comparison with the verdict; it is non-trivial if the word is not literally an entry.')
    profiles = [(profile(pfx=(0, 3), sfx=(1, 4), homonym=.25), 3), (profile(**dict(AFFIXY, complex=.6, pfx=(1, 3))), 2),
                (profile(**dict(COMP, COMPOUNDFLAG=(1., .6), COMPOUNDPERMITFLAG=(.5, .5), SIMPLIFIEDTRIPLE=.2)), 2),
                (profile(**dict(COMP, crules=1., stem=(1, 3))), 1), (profile(cap=.5, KEEPCASE=(.4, .3), german=.3, turkic=.2), 1),
                (profile(**dict(COMP, NOSUGGEST=(1., .3), homonym=.4, COMPOUNDFLAG=(.7, .6), crules=.3)), 1)]
    mix = [('form', 6), ('wrong', 4), ('compound', 3), ('low', 1.5), ('mutant', 1)]
    maxlen = 12
    nwords = 40
    cap = 1500
    quick, thorough = 5000, 30000
    need = {'analyses': 20000, 'compound analyses': 2000, 'words with several analyses': 3000, 'words without analyses': 10000,
            'verdicts compared': 50000, 'restricted verdicts compared': 40000, **{f'asked with {k}': 8000 for k in KWNAMES}}

    KW = [dict(capitalization=False), dict(allow_nosuggest=False), dict(compound_forms=False), dict(affix_forms=False),
          dict(capitalization=False, allow_nosuggest=False, compound_forms=False),
          dict(capitalization=False, allow_nosuggest=False, affix_forms=False)]

    def make(self, rng, i):
        inp = super().make(rng, i)
        if inp is not None:
            inp['kw'] = {w: rng.choice(self.KW) for w in inp['words'] if rng.random() < .35}
        return inp

    def judge(self, inp, rec):
        m = self.model(inp)
        d = self.load(inp)
        ids = {id(w): i for i, w in enumerate(d.dic.words)}
        rep = inp['rep']

        def rule_of(x):
            from .spec import cond_text
            return None if x is None else (x.kind, rep.flagmap[x.flag], x.strip, x.add)

        def aff_of(x, kind):
            return None if x is None else (kind, x.flag, x.strip, x.add)

        def part_of(f):
            return (f.text, f.stem, ids.get(id(f.in_dictionary), -2) if f.in_dictionary is not None else -1,
                    aff_of(f.prefix2, 'P'), aff_of(f.prefix, 'P'), aff_of(f.suffix, 'S'), aff_of(f.suffix2, 'S'))
        n = 0
        for w in inp['words']:
            m.limit(self.cap)
            want = set()
            kw = inp.get('kw', {}).get(w, {})
            nosug = kw.get('allow_nosuggest', True)
            try:
                ct, variants = m.casing.variants(w) if kw.get('capitalization', True) else (m.casing.captype(w), [w])
                # the model does not keep the variant with the analysis
                for v in variants:
                    for a in m.affix_anas(v, ct, nosug) if kw.get('affix_forms', True) else ():
                        kc = m.F['KEEPCASE']
                        if m.sharps and kc is not None and 'ß' in a.entry.stem and kc in m.ana_flags(a) and ct == 'all' and 'ß' in w:
                            continue
                        want.add((v, a.stem, a.entry.idx) + tuple(map(rule_of, (a.p2, a.p, a.s, a.s2))))
                    for parts in m.compound_splits(v, ct, nosug) if kw.get('compound_forms', True) else ():
                        want.add(tuple((t, a.stem, a.entry.idx) + tuple(map(rule_of, (a.p2, a.p, a.s, a.s2))) if a is not None
                                       else (t, t, -1, None, None, None, None) for t, a in parts))
            except TooExpensive:
                rec.count('words_out_of_domain')
                continue
            forms = guarded(f'good_forms({w!r})', lambda: list(d.lookuper.good_forms(w, **kw)))
            got = set()
            for f in forms:
                if hasattr(f, 'parts'):
                    got.add(tuple(part_of(x) for x in f.parts))
                else:
                    got.add(part_of(f))
            rec.count('evaluations')
            rec.count('analyses', len(got))
            rec.count('compound analyses', sum(isinstance(x[0], tuple) for x in got))
            rec.count('words with several analyses', len(want) > 1)
            rec.count('words without analyses', not want)
            if got != want:
                extra, missing = got - want, want - got
                raise Problem(f'analyses of {w!r}{" with " + str(kw) if kw else ""}: not genuine {sorted(map(str, extra))[:3]}, missing {sorted(map(str, missing))[:3]}')
            for k in kw:
                rec.count(f'asked with {k}')
            if kw:
                # the verdict under the same restrictions
                kv = {k: v for k, v in kw.items() if k in ('capitalization', 'allow_nosuggest')}
                m.limit(self.cap)
                try:
                    expected = m.lookup(w, kv.get('allow_nosuggest', True), kv.get('capitalization', True))
                except TooExpensive:
                    continue
                verdict = guarded(f'lookup of {w!r} with {kv}', lambda: d.lookuper(w, **kv))
                rec.count('restricted verdicts compared')
                if bool(verdict) is not expected:
                    raise Problem(f'lookup of {w!r} with {kv} is {verdict!r}, expected {expected!r}')
            if not kw and not m.iconv and not m.ignore and not any(b and b in w for b in (x.strip('^$') for x in m.brk)) and \
                    not m.all_forbidden(w) and w and not w.replace('.', '').isdecimal():
                if ask(d, w) is not bool(forms):
                    raise Problem(f'lookup({w!r}) is {not forms}, but {len(forms)} analyses are reported')
                rec.count('verdicts compared')
            n += '_model' in inp and self.nontrivial(inp, w)
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][:6]))
