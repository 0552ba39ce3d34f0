"""
Generators of abstract dictionaries (``Spec``) and of words to ask about.

A profile is a dict of feature probabilities; every check has its own profiles, which put its features in
focus and mix the others in at a lower rate.
"""
import random
from typing import List

from .spec import Spec, Affix, Rule, Entry
from .model import Model, Ana

ALPHABETS = [
    ('abc', 4), ('ab', 2), ('abcde', 4), ('aeiostr', 3), ('abcdefghijklmnopqrstuvwxyz', 1),
    ('абвг', 1), ('aébèo', 1), ('αβγσ', 1), ('abñü', 1), ('aeinorst\'', 1),
]

DEFAULTS = dict(
    # sizes
    words=(4, 22), stem=(1, 7), pfx=(0, 2), sfx=(0, 3), rules=(1, 3), add=(0, 3), strip=(0, 2),
    aff_flag=.35,          # entry has a given affix flag
    cont=.25,              # affix rule has a given affix flag (continuation)
    cross=.7, cond=.5, complex=.1,
    cap=.2,                # entry has some capitals
    homonym=.15, phrase=.05, dash=.05, apos=.03, digit=.03, concat=.1, nested=.12,
    alphabet=None, german=0., turkic=0.,
    # single flags: probability that the directive is declared; entries/affixes carry it with the second number
    NEEDAFFIX=(.1, .2), CIRCUMFIX=(.05, .3), ONLYINCOMPOUND=(.05, .2), KEEPCASE=(.1, .2), FORBIDDENWORD=(.1, .12),
    NOSUGGEST=(.05, .2), COMPOUNDFLAG=(.1, .6), COMPOUNDBEGIN=(0, .5), COMPOUNDMIDDLE=(0, .5), COMPOUNDEND=(0, .5),
    COMPOUNDPERMITFLAG=(.05, .4), COMPOUNDFORBIDFLAG=(.05, .1), FORCEUCASE=(.02, .3), WARN=(.02, .1),
    SUBSTANDARD=(.02, .1),
    affix_special=.3,      # share of "carries" probability for affix rules
    COMPOUNDMIN=.3, COMPOUNDWORDMAX=.1,
    CHECKCOMPOUNDDUP=.05, CHECKCOMPOUNDCASE=.05, CHECKCOMPOUNDTRIPLE=.05, CHECKCOMPOUNDREP=.05, SIMPLIFIEDTRIPLE=.05,
    pats=.05, crules=.05, iconv=.05, oconv=.05, ignore=.05, ignored=None, brk=.15, rep=.2, map=.1, phone=.05, ph=.05,
    TRY=.6, KEY=.3, NOSPLITSUGS=.1, MAXNGRAMSUGS=.2, MAXCPDSUGS=.2, MAXDIFF=.2, ONLYMAXDIFF=.1, FULLSTRIP=.05,
    data=.1,
)

FLAG_NAMES = ['NEEDAFFIX', 'CIRCUMFIX', 'ONLYINCOMPOUND', 'KEEPCASE', 'FORBIDDENWORD', 'NOSUGGEST', 'COMPOUNDFLAG',
              'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE',
              'WARN', 'SUBSTANDARD']
AFFIX_CARRIED = ['NEEDAFFIX', 'CIRCUMFIX', 'ONLYINCOMPOUND', 'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE',
                 'COMPOUNDEND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG']
ENTRY_CARRIED = ['KEEPCASE', 'NOSUGGEST', 'FORCEUCASE']


def profile(**kw):
    res = dict(DEFAULTS)
    for k in kw:
        assert k in res, k
    res.update(kw)
    return res


def stretched(prof, size):
    """The profile with long texts or with many of everything"""
    res = dict(prof)
    if size == 'long':
        res.update(stem=(5, 28), add=(0, 24), strip=(0, 6), words=(4, 12), rules=(1, 2))
    elif size == 'vast':
        # longer than any word should be
        res.update(stem=(30, 140), add=(0, 60), strip=(0, 20), words=(3, 8), rules=(1, 2), alphabet='aeiostrnlk', german=0.)
    elif size == 'many':
        res.update(words=(40, 120), stem=(2, 7), pfx=(2, 5), sfx=(4, 9), rules=(3, 12), aff_flag=.12, cont=.04,
                   homonym=max(prof['homonym'], .3), alphabet='aeiostrnlk', german=0., turkic=0.)
        if max(prof['COMPOUNDFLAG'][0], prof['COMPOUNDBEGIN'][0], prof['crules']) > .2:
            res.update(words=(25, 50), stem=(2, 5), rules=(2, 6), COMPOUNDMIN=.1, concat=.03)
    elif size == 'huge':
        # entries as in real dictionaries
        res.update(words=(1500, 30000), stem=(3, 9), pfx=(1, 3), sfx=(3, 8), rules=(2, 6), aff_flag=.1, cont=.03, nested=.01, homonym=.02,
                   alphabet='aeiostrnlk', german=0., turkic=0., concat=.01, COMPOUNDFLAG=(0., 0.), COMPOUNDBEGIN=(0., 0.), crules=0.)
    elif size == 'some':
        # as much as suggestions can be computed for
        res.update(words=(25, 60), stem=(2, 6), pfx=(1, 2), sfx=(2, 5), rules=(2, 5), aff_flag=.12, cont=.02,
                   homonym=max(prof['homonym'], .2), alphabet='aeiostrnlk', german=0., turkic=0., COMPOUNDMIN=.1, concat=.03)
    return res


def wchoice(rng, pairs):
    return rng.choices([p[0] for p in pairs], [p[1] for p in pairs])[0]


class SpecGen:
    def __init__(self, rng: random.Random, prof, size=''):
        self.rng, self.p = rng, stretched(prof, size)
        self.size = size
        self.spec = Spec()

    def chance(self, p):
        return self.rng.random() < p

    def rnd(self, lo_hi):
        return self.rng.randint(*lo_hi)

    def some(self, hi, many):
        """The number of rows of a table"""
        return self.rng.randint(hi, many) if self.size in ('many', 'some', 'huge') else self.rng.randint(1, hi)

    def text(self, n):
        return ''.join(self.rng.choice(self.abc) for _ in range(n))

    def cap(self, w):
        k = self.rng.randrange(6)
        if k < 2:
            return w[:1].upper() + w[1:]
        if k < 4:
            return w.upper()
        if k == 4:
            return ''.join(c.upper() if self.chance(.4) else c for c in w)
        return w[:1] + w[1:].upper() if self.chance(.5) else w[:1].upper() + w[1:-1] + w[-1:].upper()

    def generate(self) -> Spec:
        p, rng, s = self.p, self.rng, self.spec
        # a character special in regular expressions, in some of the stems and conditions
        self.special = rng.choice('+*?()|${}^') if self.chance(.08) else ''
        self.abc = p['alphabet'] or wchoice(rng, ALPHABETS)
        if isinstance(self.abc, (list, tuple)):
            self.abc = rng.choice(self.abc)
        if self.chance(p['german']):
            s.bools.append('CHECKSHARPS')
            self.abc = rng.choice(['sßa', 'sßabt', 'asßeu'])
        elif self.chance(p['turkic']):
            s.strs['LANG'] = rng.choice(['tr', 'tr_TR', 'az', 'crh'])
            self.abc = rng.choice(['iıa', 'iıabk', 'iıaöz'])
        elif self.chance(.05):
            s.strs['LANG'] = rng.choice(['en', 'de_DE', 'hu', 'tr_X'])
        next_flag = iter(range(1, 100))
        carried = {}
        for name in FLAG_NAMES:
            prob, carry = p[name]
            if self.chance(prob):
                s.flags[name] = next(next_flag)
                carried[name] = carry
        self.carried = carried
        pfx = [next(next_flag) for _ in range(self.rnd(p['pfx']))]
        sfx = [next(next_flag) for _ in range(self.rnd(p['sfx']))]
        # the same flag may name a prefix table and a suffix table
        if pfx and sfx and self.chance(.08):
            sfx[0] = pfx[0]
        if self.chance(p['complex']):
            s.bools.append('COMPLEXPREFIXES')
        if self.chance(p['FULLSTRIP']):
            s.bools.append('FULLSTRIP')
        aff_flags = sorted(set(pfx + sfx))
        for kind, fl in [('P', f) for f in pfx] + [('S', f) for f in sfx]:
            rules = [self.rule(kind, pfx, sfx) for _ in range(self.rnd(p['rules']))]
            s.affixes.append(Affix(kind, fl, self.chance(p['cross']), rules))
        rule_flags = []
        if self.chance(p['crules']):
            rule_flags = [next(next_flag) for _ in range(rng.randint(1, 4))]
            for _ in range(self.some(3, 9)):
                s.crules.append([(rng.choice(rule_flags), rng.choice(['', '', '', '*', '*', '?']))
                                 for _ in range(rng.randint(1, 4))])
            # a rule consisting of optional parts only is not usable (matches nothing at all)
            if self.chance(.3):
                s.flags.setdefault('COMPOUNDROOT', next(next_flag))
        self.noise_flag = next(next_flag)

        # words
        stems: List[str] = []
        for _ in range(self.rnd(p['words'])):
            st = self.stem(stems).strip() or self.text(2)
            # every pair of s doubles the number of readings in lower case
            while 'CHECKSHARPS' in s.bools and st.upper().count('S') > 12:
                st = st[:len(st) // 2].strip()
            stems.append(st)
        for st in stems:
            flags = [f for f in aff_flags if self.chance(p['aff_flag'])]
            flags += [s.flags[n] for n, c in carried.items() if self.chance(c)]
            flags += [f for f in rule_flags if self.chance(.4)]
            if self.chance(.05):
                flags.append(self.noise_flag)
            flags = sorted(set(flags))
            rng.shuffle(flags)
            data = []
            if self.chance(p['data']):
                for _ in range(rng.randint(1, 3)):
                    data.append((rng.choice(['po', 'st', 'is', 'ds']) if self.chance(.8) else rng.choice(['PO', 'x2', '4a', 'A_', '12']),
                                 rng.choice(['noun', 'verb', 'x1', 'foo', '3', rng.choice(['a:b', 'x/y', '1,2', 'st'])])))
            if self.chance(p['ph']):
                data.append(('ph', self.ph(st)))
                if self.chance(.2):
                    data.append(('ph', self.ph(st)))
            s.words.append(Entry(st, tuple(flags), data))

        if self.chance(p['COMPOUNDMIN']):
            s.ints['COMPOUNDMIN'] = rng.choice([1, 1, 2, 2, 3, 4, rng.choice([1, 2, 0, -1])])
        if self.chance(p['COMPOUNDWORDMAX']):
            s.ints['COMPOUNDWORDMAX'] = rng.choice([2, 2, 3, 4])
        for b in ('CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDREP', 'SIMPLIFIEDTRIPLE',
                  'NOSPLITSUGS', 'ONLYMAXDIFF'):
            if self.chance(p[b]):
                s.bools.append(b)
        if self.chance(p['pats']):
            for _ in range(self.some(3, 9)):
                s.pats.append(self.pat(carried, aff_flags))
        if self.chance(p['rep']) or 'CHECKCOMPOUNDREP' in s.bools:
            s.rep = [self.rep_row(stems) for _ in range(self.some(4, 25))]
        if self.chance(p['map']):
            s.map = self.maptable()
        if self.chance(p['iconv']):
            s.iconv = self.conv(stems)
        if self.chance(p['oconv']):
            s.oconv = self.conv(stems)
        if self.chance(p['ignore']):
            s.strs['IGNORE'] = rng.choice(p['ignored'] or ['*', '+*', self.abc[-1], "'" + self.abc[0], 'ًَُِّْ'])
        if self.chance(p['brk']):
            s.brk = self.breaks()
        if self.chance(p['phone']):
            s.phone = self.phone()
        if self.chance(p['TRY']):
            tr = list(self.abc)
            rng.shuffle(tr)
            if self.chance(.3):
                tr = tr[:rng.randint(1, len(tr))]
            if self.chance(.3):
                tr.insert(rng.randint(0, len(tr)), rng.choice(['-', "'", 'a', 'A']))
            s.strs['TRY'] = ''.join(tr)
        if self.chance(p['KEY']):
            k = list(self.abc) + (['|'] if self.chance(.7) else []) + ([rng.choice(self.abc)] if self.chance(.3) else [])
            rng.shuffle(k)
            s.strs['KEY'] = ''.join(k)
        if self.chance(.05):
            s.strs['WORDCHARS'] = "0123'"
        if self.chance(p['MAXNGRAMSUGS']):
            s.ints['MAXNGRAMSUGS'] = rng.choice([0, 1, 2, 3, 8, 20])
        if self.chance(p['MAXCPDSUGS']):
            s.ints['MAXCPDSUGS'] = rng.choice([0, 1, 2, 5])
        if self.chance(p['MAXDIFF']):
            s.ints['MAXDIFF'] = rng.choice([0, 1, 2, 3, 5, 7, 9, 10])
        return s

    # ------------------------------------------------------------------ pieces

    def stem(self, stems):
        p, rng = self.p, self.rng
        if stems and self.chance(p['homonym']):
            w = rng.choice(stems)
            r = rng.random()
            return w if r < .6 else w.lower() if r < .7 else self.cap(w)
        if len(stems) > 1 and self.chance(p['concat']):
            return rng.choice(stems) + rng.choice(stems)
        if stems and self.chance(p['nested']):
            # a stem which looks like an affixed form of another one
            w = rng.choice(stems)
            if self.spec.affixes:
                a = rng.choice(self.spec.affixes)
                r = rng.choice(a.rules)
                w = (r.add + w) if a.kind == 'P' else (w[:len(w) - len(r.strip)] if r.strip and w.endswith(r.strip) else w) + r.add
            return w or self.text(2)
        w = self.text(self.rnd(p['stem']))
        if self.chance(p['phrase']):
            w = w + ' ' + (rng.choice(stems) if stems and self.chance(.6) else self.text(self.rnd((1, 4))))
            w = w.replace('  ', ' ')
        if self.chance(p['dash']):
            i = rng.randint(0, len(w))
            w = w[:i] + '-' + w[i:]
        if self.chance(p['apos']):
            i = rng.randint(1, len(w))
            w = w[:i] + rng.choice(["'", '.', '’' if False else "'"]) + w[i:]
        if self.special and self.chance(.5):
            i = rng.choice([0, len(w), len(w), rng.randint(0, len(w))])
            w = w[:i] + self.special + w[i:]
        if self.chance(p['digit']):
            i = rng.randint(0, len(w))
            w = w[:i] + rng.choice('0123') + w[i:]
            if w.isdigit():
                w += rng.choice(self.abc)
        if self.chance(p['cap']):
            w = self.cap(w)
        return w

    def rule(self, kind, pfx, sfx):
        p, rng = self.p, self.rng
        strip = self.text(self.rnd(p['strip'])) if self.chance(.4) else ''
        add = self.text(self.rnd(p['add']))
        if self.chance(.05):
            add = add[:1] + rng.choice("'-.") + add[1:]
        if self.chance(.03):
            add = add.upper()
        # a single zero means nothing
        strip, add = '' if strip == '0' else strip, '' if add == '0' else add
        cond = []
        if self.chance(p['cond']):
            n = rng.randint(1, 3)
            for _ in range(n):
                k = rng.random()
                if k < .3:
                    cond.append(('.', ''))
                elif k < .55:
                    cond.append(('c', self.special if self.special and self.chance(.4) else rng.choice(self.abc)))
                else:
                    cs = ''.join(sorted(set(self.text(rng.randint(1, 3)))))
                    if self.chance(.3):
                        cs += self.special
                    if self.chance(.1):
                        i = rng.randint(0, len(cs))
                        cs = cs[:i] + '-' + cs[i:]
                    cond.append(('[' if k < .8 else '^', cs))
            # usually consistent with strip
            if strip and self.chance(.8):
                m = min(len(strip), len(cond))
                for i in range(m):
                    if kind == 'S':
                        cond[len(cond) - 1 - i] = ('c', strip[len(strip) - 1 - i])
                    else:
                        cond[i] = ('c', strip[i])
            if all(k == '.' for k, _ in cond) and len(cond) == 1:
                cond = []
            cond = [(k, c if k in '.c' else c) for k, c in cond]
        elif strip and self.chance(.7):
            cond = [('c', c) for c in strip]
        flags = [f for f in sorted(set(pfx + sfx)) if self.chance(p['cont'])]
        for name in AFFIX_CARRIED:
            if name in self.carried and self.chance(self.carried[name] * p['affix_special'] * 2 if
                                                    name in ('COMPOUNDPERMITFLAG', 'CIRCUMFIX') else
                                                    self.carried[name] * p['affix_special']):
                flags.append(self.spec.flags[name])
        for name in ENTRY_CARRIED:
            # of no effect
            if name in self.carried and not (name == 'KEEPCASE' and 'CHECKSHARPS' in self.spec.bools) and self.chance(self.carried[name] * .3):
                flags.append(self.spec.flags[name])
        rng.shuffle(flags)
        return Rule(strip, add, cond, tuple(flags))

    def ph(self, stem):
        rng = self.rng
        w = self.text(rng.randint(2, 5))
        if self.chance(.5) and len(stem) > 2 and ' ' not in stem:
            i = rng.randrange(len(stem))
            w = stem[:i] + rng.choice(self.abc) + stem[i + 1:]
        k = rng.random()
        if k < .5:
            return w
        if k < .75 and len(w) >= 3:
            return w + '*'
        return w + '->' + (self.text(rng.randint(1, 4)))

    def pat(self, carried, aff_flags):
        rng = self.rng
        flags = [self.spec.flags[n] for n in carried] + aff_flags

        def side():
            t = '0' if self.chance(.2) else self.text(rng.randint(1, 2))
            f = rng.choice(flags) if flags and not self.spec.crules and self.chance(.3) else None
            return t, f
        (a, b), (c, d) = side(), side()
        return (a, b, c, d)

    def rep_row(self, stems):
        rng = self.rng
        a = self.text(rng.randint(1, 3))
        if self.chance(.12):
            a = a[:1] + rng.choice('.*+?()[^$') + a[1:]
        if self.chance(.2):
            a = '^' + a
        if self.chance(.2):
            a = a + '$'
        b = self.text(rng.randint(1, 3))
        if self.chance(.25):
            i = rng.randint(0, len(b))
            b = b[:i] + '_' + b[i:]
        if stems and self.chance(.15):
            # whole words
            w = rng.choice(stems).replace(' ', '_')
            b = w
        return (a, b)

    def maptable(self):
        rng = self.rng
        out = []
        chars = list(self.abc)
        rng.shuffle(chars)
        extra = ['é', 'ö', 'ss', 'AB', 'x', 'ü', 'ijk', 'lmno']
        for _ in range(self.some(2, 5)):
            opts = []
            for _ in range(rng.randint(2, 3)):
                if chars and self.chance(.75):
                    opts.append(chars.pop())
                elif extra:
                    opts.append(extra.pop(rng.randrange(len(extra))))
            if opts and self.chance(.1):
                # one contains another
                opts.append(rng.choice([opts[0] * 2, opts[0] + rng.choice(self.abc), 'z' + opts[0]]))
            opts = list(dict.fromkeys(opts))
            if len(opts) > 1:
                out.append(opts)
        return out

    def conv(self, stems):
        rng = self.rng
        out, used = [], set()
        pool = list(self.abc) + ['’', 'ﬁ', 'x', 'q', '.', '*', '(', '\\']
        for _ in range(self.some(4, 25)):
            a = ''.join(rng.choice(pool) for _ in range(rng.randint(1, 3)))
            if a in used:
                continue
            used.add(a)
            b = self.text(rng.randint(1, 3))
            if self.chance(.1):
                i = rng.randint(0, len(b))
                b = b[:i] + '_' + b[i:]
            if self.chance(.1):
                b = rng.choice(['’', '\\1', '.', 'é'])
            if self.chance(.15):
                a = '_' + a
            if self.chance(.15):
                a = a + '_'
            out.append((a, b))
        return out or [('x', 'y')]

    def breaks(self):
        rng = self.rng
        k = rng.random()
        if k < .15:
            return []
        if k < .25:
            return ['-']
        out = []
        for _ in range(self.some(4, 9)):
            b = rng.choice(['-', '.', "'", '*', '_', '|', '+', '-', self.abc[0], '.-', '-^', '$-', '' if self.chance(.5) else '-'])
            j = rng.random()
            if j < .2:
                b = '^' + b
            elif j < .4:
                b = b + '$'
            if b and b not in out:
                out.append(b)
        return out or ['-']

    def phone(self):
        rng = self.rng
        up = [c.upper() for c in self.abc if c.isalpha() and len(c.upper()) == 1]
        out = []
        for _ in range(self.some(8, 30)):
            letters = ''.join(rng.choice(up) for _ in range(rng.randint(1, 3)))
            s = letters
            n = len(letters)
            if self.chance(.2):
                s += '(' + ''.join(sorted(set(rng.choice(up) for _ in range(2)))) + ')'
                n += 1
            if n > 1 and self.chance(.25):
                s += '-' * rng.randint(1, n - 1)
            elif self.chance(.04):
                s += '-' * rng.choice([n, n, n + 1])
            if self.chance(.2):
                s += '^'
            if self.chance(.2):
                s += '$'
            if self.chance(.1):
                s += '<'
            if self.chance(.1):
                s += str(rng.randint(0, 9))
            out.append((s, rng.choice(['_', rng.choice(up), rng.choice(up), rng.choice(up) + rng.choice(up), 'X'])))
        for c in up:
            if self.chance(.5):
                out.append((c, c))
        return out


# ---------------------------------------------------------------------------------------------
# words to ask about

class WordGen:
    def __init__(self, rng: random.Random, spec: Spec, model: Model):
        self.rng, self.spec, self.m = rng, spec, model
        chars = sorted({c for w in spec.words for c in w.stem if c.isalpha()}) or ['a']
        self.chars = chars
        self.stems = [w.stem for w in spec.words]
        self.forms = list(model.table)
        self.rules = [(a, r) for a in spec.affixes for r in a.rules]
        self.breaks = [b[b[:1] == '^':len(b) - (b[-1:] == '$')] for b in model.brk]

    def chance(self, p):
        return self.rng.random() < p

    def text(self, n):
        return ''.join(self.rng.choice(self.chars) for _ in range(n))

    def form(self):
        rng = self.rng
        if self.forms and self.chance(.7):
            return rng.choice(self.forms)
        return rng.choice(self.stems) if self.stems else self.text(3)

    def wrong_form(self):
        """Affixes put on a stem without asking for permission"""
        rng = self.rng
        w = rng.choice(self.stems) if self.stems and self.chance(.7) else self.form()
        for _ in range(wchoice(rng, [(1, 5), (2, 4), (3, 1)])):
            if not self.rules:
                break
            a, r = rng.choice(self.rules)
            if a.kind == 'S':
                if r.strip and w.endswith(r.strip) and self.chance(.85):
                    w = w[:-len(r.strip)]
                w = w + r.add
            else:
                if r.strip and w.startswith(r.strip) and self.chance(.85):
                    w = w[len(r.strip):]
                w = r.add + w
        return w

    def piece(self):
        return self.wrong_form() if self.chance(.25) else self.form()

    def compound(self):
        rng = self.rng
        n = wchoice(rng, [(2, 6), (3, 3), (4, 1), (5, .3)])
        parts = [rng.choice(self.stems) if self.stems and self.chance(.6) else self.piece() for _ in range(n)]
        if self.chance(.1):
            parts[-1] = parts[-2]
        w = parts[0]
        for x in parts[1:]:
            if len(w) > 1 and x and w[-1] == w[-2] == x[0] and self.chance(.5):
                w = w[:-1]
            w += x.lower() if self.chance(.1) else x
        return w

    def mutate(self, w):
        rng = self.rng
        if not w:
            return self.text(1)
        i = rng.randrange(len(w))
        k = rng.randrange(9)
        if k == 0:
            return w[:i] + w[i + 1:]
        if k == 1:
            return w[:i] + rng.choice(self.chars) + w[i:]
        if k == 2:
            return w[:i] + rng.choice(self.chars) + w[i + 1:]
        if k == 3 and len(w) > 1:
            j = min(len(w) - 1, i + rng.choice([1, 1, 2, 3]))
            c = list(w)
            c[i], c[j] = c[j], c[i]
            return ''.join(c)
        if k == 4 and len(w) > 3:
            j = max(0, min(len(w) - 1, i + rng.choice([-3, -2, 2, 3])))
            rest = w[:i] + w[i + 1:]
            return rest[:j] + w[i] + rest[j:]
        if k == 5 and len(w) > 1:
            i = rng.randrange(len(w) - 1)
            return w[:i + 2] + w[i:]
        if k == 6:
            return w[:i] + w[i:i + 1].swapcase() + w[i + 1:]
        if k == 7:
            return w[:i] + w[i] + w[i:]
        return w + rng.choice(self.chars)

    def recase(self, w):
        rng = self.rng
        k = rng.randrange(9)
        up = self.m.casing.upper
        if k == 0:
            return w.upper()
        if k == 1:
            return up(w)
        if k == 2:
            return up(w[:1]) + w[1:]
        if k == 3:
            return w.lower()
        if k == 4:
            return up(w[:1]) + w[1:].lower()
        if k == 5:
            return w.swapcase()
        if k == 6:
            return w[:1].lower() + w[1:]
        if k == 7:
            return ''.join(c.upper() if self.chance(.5) else c for c in w)
        return w.replace('ß', 'SS' if self.chance(.5) else 'ss') if 'ß' in w else w.title()

    def broken(self):
        rng = self.rng
        pats = self.breaks or ['-']
        n = wchoice(rng, [(2, 5), (3, 4), (4, 2), (6, 1)])
        w = ''
        for i in range(n):
            x = self.form() if self.chance(.8) else self.piece()
            if self.chance(.15):
                x = rng.choice(self.chars)
            if self.chance(.1):
                x = self.recase(x)
            w += (rng.choice(pats) if i else '') + x
        if self.chance(.2):
            w = rng.choice(pats) + w
        if self.chance(.2):
            w = w + rng.choice(pats)
        if self.chance(.05):
            w = w + rng.choice(pats) * 2
        # keep the number of break points bounded (the number of partitions is exponential)
        if sum(w.count(b) for b in pats if b) > 9:
            return self.form()
        return w

    def unconv(self, w):
        """Apply ICONV backwards, so that it has something to do; or put its patterns anywhere"""
        rng = self.rng
        if not self.spec.iconv:
            return w
        for _ in range(rng.randint(1, 2)):
            a, b = rng.choice(self.spec.iconv)
            a2, b2 = a.replace('_', ''), b.replace('_', ' ')
            if b2 and b2 in w and self.chance(.8):
                i = rng.choice([i for i in range(len(w)) if w.startswith(b2, i)])
                w = w[:i] + a2 + w[i + len(b2):]
            elif self.chance(.5):
                i = rng.randint(0, len(w))
                w = w[:i] + a2 + w[i:]
        return w

    def number(self):
        rng = self.rng
        if rng.random() < .4:
            def digits(n):
                return ''.join(rng.choice(rng.choice(['0123456789', '0123456789', '٠٣٩१२', '00'])) for _ in range(rng.randint(1, n)))
            w = digits(rng.choice([3, 8, 18]))
            return w + rng.choice(['', '', '.' + digits(3), '.' + digits(12), '.' + digits(2) + '.' + digits(2), rng.choice('.,eE+-_ %'),
                                   rng.choice(',eE+-_ ') + digits(2)])
        return rng.choice(['1', '42', '3.14', '0', '007', '1.', '.5', '1.2.3', '1,5', '12a', '-5', '5-', '1-2', '٣', '१२.३',
                           '1 2', '²', '1e5', '10.00'])

    def word(self, weights=None):
        rng = self.rng
        k = wchoice(rng, weights or WORD_MIX)
        if k == 'form':
            w = self.form()
        elif k == 'wrong':
            w = self.wrong_form()
        elif k == 'compound':
            w = self.compound()
        elif k == 'mutant':
            w = self.mutate(self.form())
        elif k == 'broken':
            w = self.broken()
        elif k == 'number':
            w = self.number()
        elif k == 'mutcomp':
            w = self.mutate(self.compound())
        elif k == 'low':
            low = list(self.m.lowtable)
            w = rng.choice(low) if low else self.form()
            w = self.recase(w)
        elif k == 'space':
            w = self.form() + ' ' + self.form()
        else:
            w = self.text(rng.randint(0, 7))
        if self.chance(.22):
            w = self.recase(w)
        if self.spec.iconv and self.chance(.4):
            w = self.unconv(w)
        ig = self.spec.strs.get('IGNORE')
        if ig and self.chance(.4):
            for _ in range(rng.randint(1, 2)):
                i = rng.randint(0, len(w))
                w = w[:i] + rng.choice(ig) + w[i:]
        return w

    def words(self, n, weights=None, maxlen=24):
        """n different words"""
        seen, out = set(), []
        for _ in range(n * 4):
            w = self.word(weights)
            if len(w) > maxlen or w in seen or '\n' in w or '\r' in w:
                continue
            if self.m.sharps and w.upper().count('SS') + w.count('ß') > 3:
                continue
            seen.add(w)
            out.append(w)
            if len(out) == n:
                break
        return out


WORD_MIX = [('form', 5), ('wrong', 5), ('compound', 4), ('mutant', 3), ('broken', 2), ('number', .4), ('mutcomp', 1),
            ('low', 1), ('space', .3), ('random', 1)]


def many_similar(rng, phone=False):
    """A dictionary with more entries of the same similarity than are looked at for guesses, and words: (spec, words)"""
    body = ''.join(rng.choice('abcd') for _ in range(rng.randint(4, 6)))
    ends = [a + b for a in 'efghijklmnop' for b in 'efghijklmnop']
    stems = [body + e if rng.random() < .95 else e + body for e in rng.sample(ends, rng.randint(90, 140))]
    spec = Spec()
    words = [body + e for e in ('zz', 'zyx', 'z', 'eez', 'yq')] + [body[:-1] + 'zz', body[0] + body[::-1]]
    flags = ()
    if rng.random() < .5:
        # more forms than are looked at
        tails = rng.sample(['z', 'zz', 'yzz', 'xyzz'], rng.randint(1, 4))
        spec.affixes.append(Affix('S', 1, True, [Rule('', t, [('.', '')]) for t in tails]))
        if rng.random() < .5:
            spec.affixes.append(Affix('P', 2, True, [Rule('', body[0], [('.', '')])]))
        flags = tuple(a.flag for a in spec.affixes)
        words += [body + e for e in ('xyzz', 'qyzz', 'qqz')] + [body[0] + body + 'yzz']
    spec.words = [Entry(t, flags) for t in dict.fromkeys(stems)]
    if rng.random() < .3:
        spec.strs['TRY'] = 'ab'
    if rng.random() < .5:
        spec.ints['MAXNGRAMSUGS'] = rng.choice([1, 4, 10, 300])
    if rng.random() < .4:
        spec.ints['MAXDIFF'] = rng.choice([0, 3, 5, 9, 10])
    if phone:
        # they sound alike; what differs in the end are the letters
        spec.phone = [(c, 'X') for c in 'EFGHIJKLMNOP'[:rng.randint(6, 12)]]
        words += [body + e + rng.choice('eqz') for e in rng.sample(ends, 6)]
        spec.ints['MAXNGRAMSUGS'] = rng.choice([0, 0, 1])
    return spec, words
