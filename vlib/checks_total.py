"""Checks of robustness (T01, T02) and of independence from history, process and interleaving (H01-H03)"""
import gc
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time
import zipfile
from itertools import islice

from . import spec as S
from .checks_load import RICH, public, random_rep
from .checks_suggest import NOCOMP, SUG
from .common import SpecCheck, guarded, ask, ask_sug, load
from .gen import profile, wchoice, SpecGen, WordGen
from .harness import Check, Problem, Steps, with_steps, in_child, VERIF, REPO
from .model import Model, TooExpensive
from .sugmodel import SugModel

# ---------------------------------------------------------------------------------------------
# T01

def chars(*codes):
    return ''.join(map(chr, codes))


HOSTILE = (
    # case mappings that are not one to one
    chars(0xdf, 0x1e9e, 0x17f, 0x131, 0x130, 0x1c5, 0x1c6, 0x1c4, 0x149, 0x390, 0x3b0, 0xfb01, 0xfb02, 0x1fb3, 0x1fbc) + 'iIΣσςÅåéÉñÑёЁйЙ'
    # combining and invisible
    + chars(0x301, 0x308, 0x307, 0x200d, 0xfe0f, 0x200b, 0xad, 0x202e, 0xfeff)
    # special in patterns
    + '-–—.,’"/#_&@()[]{}^$*?+|~<>=:;!%`' + chars(0x27, 0x5c)
    + '0123456789' + chars(0x663, 0xb2, 0xbd, 0x2167)
    # white space and control
    + chars(0x20, 0x09, 0x0a, 0x0d, 0x00, 0x01, 0x1f, 0x7f, 0x85, 0xa0, 0x2028, 0x3000)
    # other scripts and planes
    + chars(0x1f600, 0x1d400, 0x20000, 0x6f22, 0x5b57, 0xd55c, 0x5e2, 0x5dd, 0x905)
    # unpaired surrogates
    + chars(0xd800, 0xdfff, 0xdbff))
LETTERS = 'abcxyzABZ'

FIXED = ['', ' ', '-', '--', '---', '-a', 'a-', '-a-', '.', '..', "'", '0', '00', '1.', '1.2', '1,2', '1-2', '.1', '1.2.3', '1..2', '-1',
         *chars(0x663, 0xb2, 0xdf, 0x1e9e, 0x130, 0x131, 0x1c5, 0x1c6, 0x149, 0xfb01, 0x301, 0x00, 0x0a, 0x09, 0xd800, 0xa0, 0x1f600),
         'a', 'A', 'I', 'SS', 'a' + chr(0xdfff), chars(0xd83d, 0x20), 'a b', ' a', 'a ', 'a  b', 'a' + chr(9) + 'b', 'a' * 99, 'A' * 100,
         'é' * 101, '1' * 300, '/', 'a/b', chr(0x5c), '^', '$', '*', '(', '[a]', 'aA', 'Aa', 'aAa', 'AaA', 'ßS', 'ÄSS', 'x-', '–', 'a–b',
         'a’b']


def hostile(rng, alphabet, n):
    pool = [LETTERS, alphabet or 'ab', HOSTILE]
    return ''.join(rng.choice(rng.choice(pool)) for _ in range(n))


def breaks(model, w):
    """Number of places at which a word may be broken"""
    w = model.prepare(w)
    return sum(1 for _ in model.break_points(w)) if w else 0


class T01(SpecCheck):
    id = 'T01'
    technique = 'totality monitor (types, exceptions, end of iteration) with counters of executed lines'
    rule = ('A case is a dictionary (generated, mutated fixture, or one of the bundled ones in full) and hostile strings. An '
            'evaluation is one call of lookup, suggest or analysis run to its end under the monitor. It is non-trivial if the '
            'string is not one of the stems of the dictionary.')
    profiles = [(profile(**dict(RICH, alphabet=['aßsS', 'aıiIİ', 'aǅǆb', "ab-'", 'ab1.2', 'aéñ', 'ab' + chr(0x301), 'aſﬁs', 'a漢😀', 'ab.-', 'αςσΐ'],
                                cap=.3, dash=.15, german=.25, turkic=.2)), 6),
                (profile(**dict(SUG, rep=.7, map=.4, phone=.5, oconv=.4, iconv=.4)), 2),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .8), crules=.4, FORCEUCASE=(.4, .3), phrase=.2)), 2)]
    fixtures = .2
    bundled = .02
    bundled_names = ('en_US', 'ru')
    undecided = 0
    nwords = 14
    maxlen = 14
    quick, thorough = 1400, 9000
    need = {'evaluations': 60000, 'calls: lookup': 30000, 'calls: suggest': 15000, 'calls: analysis': 30000, 'strings with surrogates': 800,
            'strings over 100 letters': 800, 'empty string': 100, 'full bundled dictionary': 20, 'calls under the step counter': 10000}
    LIMIT = {'lookup': 4_000_000, 'suggest': 30_000_000, 'analysis': 4_000_000}
    full = {}

    def make(self, rng, i):
        if i % 40 == 3:
            name = rng.choice(['en_US', 'en_US', 'ru', 'sv_SE'])
            words = rng.sample(FIXED, 6)
            alphabet = {'ru': 'абвгдеё-', 'sv_SE': 'aåäösk-', 'en_US': "aeiousthr-'"}[name]
            words += [hostile(rng, alphabet, rng.randint(1, 14)) for _ in range(6)]
            words += [''.join(rng.choice(alphabet) for _ in range(rng.randint(1, 10))) for _ in range(6)]
            # long compounds by rules
            words += [''.join(rng.choice('0123') for _ in range(rng.randint(3, 40))) + rng.choice(['th', 'st', 'x', '1', ':a', ':e'])
                      for _ in range(2)]
            words = [w for w in words if w.count('-') <= 4]
            return dict(bundled=name, steps=False, words=words, sug=rng.sample([w for w in words if len(w) <= 12], 3), _model=None)
        inp = super().make(rng, i)
        if inp is None:
            return None
        spec, m = inp['spec'], inp['_model']
        alphabet = ''.join(sorted(c for c in spec.chars() if not c.isspace()))
        words = [w for w in inp['words'][:self.nwords]]
        words += rng.sample(FIXED, 8)
        for _ in range(10):
            words.append(hostile(rng, alphabet, rng.choice([1, 2, 3, 5, 8, 13])))
        for w in list(words[:8]):
            j = rng.randint(0, len(w))
            words.append(w[:j] + rng.choice(HOSTILE) + w[j:])
        simple = not spec.map and not spec.crules and not any(k.startswith('COMPOUND') for k in spec.flags)
        for _ in range(3):
            n = rng.choice([100, 101, 300, 1000] + ([5000] if simple else []))
            unit = rng.choice([rng.choice(LETTERS), rng.choice(alphabet or 'a'), hostile(rng, alphabet, 7)])
            words.append((unit * n)[:n])
        keep, sug = [], []
        sm = SugModel(m)
        for w in words:
            if breaks(m, w) > 6 or w.upper().replace('ß', 'SS').count('SS') > 4 and 'CHECKSHARPS' in spec.bools:
                continue
            if len(w) > 40:
                # other words of this length may be split in too many ways
                if simple:
                    keep.append(w)
                    if len(w) <= 101 and rng.random() < .1:
                        sug.append(w)
                elif not set(w.casefold()) & set(alphabet.casefold()):
                    keep.append(w)
                continue
            m.limit(3000)
            try:
                m.lookup(w)
                keep.append(w)
                if rng.random() < .5:
                    m.limit(4000)
                    sm.corrections(w)
                    sug.append(w)
            except TooExpensive:
                pass
        inp['words'], inp['sug'] = keep, sug
        inp['steps'] = i % 5 == 0
        return inp

    def get(self, inp):
        if 'bundled' not in inp:
            return self.load(inp)
        from spylls.hunspell import Dictionary
        name = inp['bundled']
        if name not in self.full:
            self.full.clear()
            self.full[name] = guarded(f'loading {name}', lambda: Dictionary.from_files(name))
        return self.full[name]

    def judge(self, inp, rec):
        d = self.get(inp)
        rec.count('full bundled dictionary', 'bundled' in inp)
        n = 0
        big = 20 if 'bundled' in inp else 1

        def call(kind, w, fn):
            rec.count('evaluations')
            rec.count(f'calls: {kind}')
            limit = self.LIMIT[kind] * (big if kind == 'suggest' else 1)
            if not inp['steps'] and not (big > 1 and kind != 'suggest'):
                return guarded(f'{kind} of {w!r}', fn)
            rec.count('calls under the step counter')
            try:
                out, lines = guarded(f'{kind} of {w!r}', lambda: with_steps(limit, fn))
            except Steps:
                raise Problem(f'{kind} of {w[:60]!r} ({len(w)} letters): no end after {limit} executed lines')
            k = f'most lines in {kind}'
            if big == 1 and lines > rec.counts[k]:
                rec.counts[k] = lines
            return out
        for w in inp['words']:
            rec.count('strings with surrogates', any('\ud800' <= c <= '\udfff' for c in w))
            rec.count('strings over 100 letters', len(w) > 100)
            rec.count('empty string', not w)
            n += self.nontrivial(inp, w)
            r = call('lookup', w, lambda: d.lookup(w))
            if r is not True and r is not False:
                raise Problem(f'lookup({w!r}) is {r!r}')
            if len(w) <= 40:
                r = call('analysis', w, lambda: list(islice(d.lookuper.good_forms(w), 3000)))
                if len(r) >= 3000:
                    raise Problem(f'analysis of {w!r} does not end')
                rec.count('analyses yielded', len(r))
        for w in inp['sug']:
            if w not in inp['words']:
                continue
            r = call('suggest', w, lambda: list(islice(d.suggest(w), 1000)))
            rec.count('suggestions yielded', len(r))
            if len(r) >= 1000:
                raise Problem(f'suggest({w!r}) does not end: {r[:20]}...')
            if not all(isinstance(t, str) for t in r):
                raise Problem(f'suggest({w!r}) is {r!r}')
        if 'spec' in inp:
            self.seen(rec, inp, n)
            rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]], words=inp['words'][-8:-3]))
        elif '_model' in inp:
            rec.cases[repr((inp['bundled'], inp['words']))] = n

    def shrinks(self, inp):
        if 'bundled' in inp:
            ws = inp['words']
            if len(ws) > 1:
                for w in ws:
                    yield dict(bundled=inp['bundled'], steps=False, words=[w], sug=[x for x in inp['sug'] if x == w])
            return
        yield from super().shrinks(inp)

    def findings(self):
        """Known families of unbounded work, see DESIGN.md: (key, observed growth)"""
        base = os.path.join(self.scratch, 'known')
        out = []

        def growth(aff, dic, words, fn):
            for ext, text in (('.aff', aff), ('.dic', dic)):
                with open(base + ext, 'w', encoding='utf-8') as f:
                    f.write(text)
            d = load(base)
            return [with_steps(20_000_000, lambda w=w: fn(d, w))[1] for w in words]
        fams = [
            ('many-break-points', 'SET UTF-8\n', '1\na\n', ['x' + '-a' * n for n in (4, 8, 12)], lambda d, w: d.lookup(w)),
            ('many-map-letters', 'SET UTF-8\nMAP 1\nMAP aáà\n', '1\nzzz\n', ['a' * n + 'q' for n in (6, 8, 10)],
             lambda d, w: list(d.suggest(w))),
            ('many-sharp-s', 'SET UTF-8\nCHECKSHARPS\n', '1\nzzz\n', ['SSA' * n for n in (2, 4, 6)], lambda d, w: d.lookup(w)),
        ]
        fams.append(('many-compound-splits', 'SET UTF-8\nCOMPOUNDMIN 1\nCOMPOUNDFLAG A\n', '2\na/A\naa/A\n', ['a' * n + 'x' for n in (6, 10, 14)],
                     lambda d, w: d.lookup(w)))
        for key, aff, dic, words, fn in fams:
            try:
                ns = growth(aff, dic, words, fn)
            except Steps:
                ns = [1, 1000, 1000000]
            if ns[2] > 3 * ns[1] > 6 * ns[0]:
                out.append((key, f'lines executed: {ns}'))
        try:
            growth('SET UTF-8\nCOMPOUNDMIN 1\nCOMPOUNDFLAG A\n', '1\na/A\n', ['a' * 3000], lambda d, w: d.lookup(w))
        except RecursionError:
            out.append(('many-compound-parts', 'RecursionError for a compound of 3000 parts'))
        except Steps:
            pass
        return out


# ---------------------------------------------------------------------------------------------
# T02

TOKENS = ['0', '1', '-1', '2', '99', '1000000', 'x', '', '#', '/', '(', ')', '*', '?', '[', '[^', ']', '^', '$', '^$', '.', '_', '__', '|', '-',
          chr(92), chr(92) * 2, 'a', 'A', 'AB', chr(9), '  ', 'é', chr(0), '1e3', '+', '++', '(a', 'a)', '(a)', '(ab)', '((a))', '()', '[a-', '{',
          'a{9}', '(a+)+', '1:1', 'ph:', 'ph:*', 'ph:->', 'ph:a->', 'ph:->a', 'ph:x*', '0x1', chr(0x663), chr(0xb2), '1,2', ',', '1,', 'UTF-8',
          'A-', 'A--', '(AB)-', 'A<', 'A1', 'a/A', '/A', 'A/a', chr(0xfeff), chr(0xd83d), 'Y', 'N', 'aa', 'ab', 'ba', '1000', '0/A', '3 4']
DIRECTIVES = ('SET FLAG KEY TRY WORDCHARS LANG IGNORE MAXDIFF MAXNGRAMSUGS MAXCPDSUGS COMPOUNDMIN COMPOUNDWORDMAX NOSUGGEST KEEPCASE '
              'CIRCUMFIX NEEDAFFIX FORBIDDENWORD COMPOUNDFLAG COMPOUNDBEGIN COMPOUNDMIDDLE COMPOUNDEND ONLYINCOMPOUND COMPOUNDPERMITFLAG '
              'COMPOUNDFORBIDFLAG FORCEUCASE COMPLEXPREFIXES FULLSTRIP CHECKSHARPS CHECKCOMPOUNDCASE CHECKCOMPOUNDDUP CHECKCOMPOUNDREP '
              'SIMPLIFIEDTRIPLE CHECKCOMPOUNDTRIPLE BREAK COMPOUNDRULE ICONV OCONV REP MAP SFX PFX CHECKCOMPOUNDPATTERN AF AM '
              'COMPOUNDSYLLABLE SYLLABLENUM PHONE NOSPLITSUGS ONLYMAXDIFF LEMMA_PRESENT PSEUDOROOT COMPOUNDLAST').split()
# what ordinary use never meets: references in a circle, patterns of nothing, limits below the least, long texts
DEGENERATE = ['AM 1|AM 1', 'AM 2|AM 2|AM 1', 'AM 3|AM 1 2|AM 3|AM 2 po:x', 'AF 1|AF 1', 'COMPOUNDMIN 0', 'COMPOUNDMIN -1', 'COMPOUNDWORDMAX 0',
              'COMPOUNDWORDMAX -3', 'BREAK 3|BREAK ^|BREAK $|BREAK ^$', 'BREAK 0', 'BREAK 1|BREAK a', 'ICONV 2|ICONV _ x|ICONV _a_ y',
              'ICONV 1|ICONV a aa', 'OCONV 2|OCONV __ x|OCONV a_b y', 'OCONV 1|OCONV a aa', 'REP 3|REP ^ x|REP $ y|REP ^$ z', 'REP 1|REP a aa',
              'REP 1|REP a _', 'MAP 1|MAP (ab)(ab)a', 'MAP 1|MAP aa', 'MAP 1|MAP a(aa)', 'MAP 1|MAP (ab)b', 'MAP 2|MAP (|MAP ()',
              'MAXDIFF 11', 'MAXDIFF -1', 'MAXNGRAMSUGS -1', 'MAXNGRAMSUGS 0', 'MAXCPDSUGS -1', 'PHONE 1|PHONE A--- B', 'PHONE 1|PHONE A(BC)-- B',
              'PHONE 1|PHONE A- _', 'PHONE 2|PHONE AH(AEIOUY)-^ *H|PHONE A^$ B', 'PHONE 1|PHONE A AA', 'PHONE 1|PHONE A- A',
              'SFX A Y 1|SFX A 0 0 .', 'SFX A Y 1|SFX A 0 0/A .', 'SFX A Y 1|SFX A 0 a/A .', 'SFX A Y 1|SFX A a a/A a', 'SFX A Y 1|SFX A a 0/A a',
              'PFX A Y 1|PFX A 0 0/A .|COMPLEXPREFIXES', 'SFX A Y 1|SFX A 0 b (a+)+$', 'SFX A Y 1|SFX A 0 b *', 'SFX A Y 1|SFX A 0 b [a',
              'COMPOUNDRULE 1|COMPOUNDRULE A**', 'COMPOUNDRULE 1|COMPOUNDRULE *', 'COMPOUNDRULE 1|COMPOUNDRULE ()', 'COMPOUNDRULE 1|COMPOUNDRULE (A',
              'COMPOUNDRULE 1|COMPOUNDRULE A*B*A*B*A*', 'COMPOUNDRULE 1|COMPOUNDRULE A?A?A?A?', 'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN 0 0',
              'CHECKCOMPOUNDPATTERN 1|CHECKCOMPOUNDPATTERN /A /A', 'IGNORE ab', 'IGNORE', 'TRY', 'KEY', 'KEY |||', 'KEY a', 'WORDCHARS', 'LANG', 'SET',
              'SET utf8', 'SET no-such', 'SET hex', 'SET idna', 'FLAG', 'FLAG num', 'FLAG long', 'FLAG x', 'NOSUGGEST', 'FULLSTRIP|SFX A Y 1|SFX A ab 0 ab',
              'COMPOUNDFLAG A|COMPOUNDMIN 0|SIMPLIFIEDTRIPLE', 'COMPOUNDFLAG A|COMPOUNDMIN 1|FORCEUCASE A', 'COMPOUNDFLAG A|CHECKCOMPOUNDREP|REP 1|REP a b',
              'LONGSFX', 'LONGPFX', 'LONGREP', 'LONGICONV', 'LONGBREAK']
LONG = 'ab' * 750
DEGENERATE_DIC = ['', '/', '//', chr(92) + '/', chr(9) + 'ph:x', 'ab' + chr(9), 'a 1', 'a' + chr(9) + '1', 'ab ph:', 'ac ph:*', 'ad ph:->', 'ae ph:->x',
                  'ag ph:x*', 'a/1', 'a/', '/A', 'a/A/A', 'A/A', 'SS', 'ß', 'I', 'İ', 'ab/AA', 'a b/A', '1', '-', '.', '-1', LONG + '/A', ' ab',
                  'a po:1 1', 'po:x', 'a/A 1 1']


def damage(rng, lines):
    lines = lines or ['']
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        lines = lines or ['']
        k = rng.randrange(9)
        i = rng.randrange(len(lines))
        t = lines[i].split(' ')
        j = rng.randrange(len(t))
        p = rng.randint(0, len(t[j]))
        if k == 0:
            t[j] = rng.choice(TOKENS)
        elif k == 1:
            t.insert(j, rng.choice(TOKENS))
        elif k == 2:
            t.pop(j)
        elif k == 3:
            lines.insert(i, rng.choice(lines))
            continue
        elif k == 4:
            lines.pop(i)
            continue
        elif k == 5:
            t[j] = t[j][:p] + rng.choice(TOKENS) + t[j][p:]
        elif k == 6:
            t[j] = t[j][:p] + t[j][p + 1:]
        elif k == 7:
            lines.insert(i, ' '.join([rng.choice(DIRECTIVES)] + [rng.choice(TOKENS) for _ in range(rng.choice([0, 1, 1, 2, 4]))]))
            continue
        else:
            t[j] += rng.choice(TOKENS)
        lines[i] = ' '.join(t)
    return lines


def long_text(name):
    x = LONG
    return {'LONGSFX': f'SFX A Y 1|SFX A 0 {x} .', 'LONGPFX': f'PFX A Y 1|PFX A 0 {x} .', 'LONGREP': f'REP 1|REP {x} {x}',
            'LONGICONV': f'ICONV 1|ICONV {x} {x}', 'LONGBREAK': f'BREAK 1|BREAK {x}'}.get(name, name)


def as_bytes(text):
    """UTF-8; bytes read as invalid come out as they were, other halves of surrogate pairs as invalid bytes, too"""
    return b''.join(c.encode('utf-8', 'surrogateescape' if 0xdc80 <= ord(c) <= 0xdcff else 'surrogatepass') for c in text)


class T02(Check):
    id = 'T02'
    technique = 'totality monitor on loading of damaged files, with counters of executed lines'
    rule = ('A case is a pair of dictionary files: generated ones damaged in a few places, degenerate settings, or random text and bytes. '
            'An evaluation is one load, or one call to what was loaded, run to its end under the counter of executed lines. It is '
            'non-trivial if the files differ from well-formed ones (all cases).')
    profiles = [(profile(**dict(RICH, words=(3, 8))), 2), (profile(**dict(RICH, words=(3, 8), iconv=.6, oconv=.6, phone=.6, crules=.5, pats=.5)), 2)]
    quick, thorough = 15000, 150000
    need = {'evaluations': 160000, 'loads that returned': 9000, 'loads that raised': 5000, 'calls: lookup': 100000, 'calls: suggest': 45000,
            'cases: damaged': 8000, 'cases: degenerate': 4500, 'cases: garbage': 1500, 'loaded from an archive': 2000,
            'words of 1500 letters with parts as long in the files': 400}
    LOAD, LOOKUP, SUGGEST = 3_000_000, 4_000_000, 30_000_000

    def make(self, rng, i):
        kind = wchoice(rng, [('damaged', 5), ('degenerate', 3), ('garbage', 1)])
        if kind == 'damaged':
            spec = SpecGen(rng, wchoice(rng, self.profiles)).generate()
            rep = random_rep(rng, spec, formatting=False)
            rep.encoding = 'UTF-8'
            base = os.path.join(self.scratch, 'make')
            S.write(spec, rep, base)
            files = []
            for ext in ('.aff', '.dic'):
                with open(base + ext, encoding='utf-8', errors='surrogateescape', newline='') as f:
                    files.append(f.read().split('\n'))
            if rng.random() < .75:
                files[0] = damage(rng, files[0])
            if rng.random() < .5:
                files[1] = damage(rng, files[1])
        elif kind == 'degenerate':
            aff = [] if rng.random() < .1 else ['SET UTF-8']
            for t in rng.sample(DEGENERATE, rng.choice([1, 1, 2, 3])):
                aff += long_text(t).split('|')
            dic = [rng.choice(['1', '9', '0', '', 'x'])] + ['ab/A', 'a/A', 'ba/AB'][:rng.randint(0, 3)]
            files = [aff, dic + rng.sample(DEGENERATE_DIC, rng.choice([0, 1, 2]))]
        else:
            files = []
            for n in (rng.randint(0, 8), rng.randint(0, 8)):
                files.append([' '.join(rng.choice([rng.choice(TOKENS), rng.choice(DIRECTIVES), hostile(rng, 'ab', rng.randint(0, 5))])
                                       for _ in range(rng.randint(0, 4))) for _ in range(n)])
        nl = rng.choice(['\n', '\n', '\r\n'])
        aff, dic = (nl.join(x) + rng.choice(['', nl]) for x in files)
        return dict(kind=kind, aff=aff, dic=dic, zip=rng.random() < .15, words=['', 'a', '-', 'a-b', 'ab', 'aba', 'AB', 'abx', '1'], _model=None)

    def judge(self, inp, rec):
        from spylls.hunspell import Dictionary
        base = os.path.join(self.scratch, 'd')
        data = {'.aff': as_bytes(inp['aff']), '.dic': as_bytes(inp['dic'])}
        if inp['zip']:
            with zipfile.ZipFile(base + '.zip', 'w') as z:
                for ext, text in data.items():
                    z.writestr('d' + ext, text)
            rec.count('loaded from an archive')
        else:
            for ext, text in data.items():
                with open(base + ext, 'wb') as f:
                    f.write(text)
        rec.count(f'cases: {inp["kind"]}')
        rec.count('evaluations')
        if '_model' in inp:
            rec.cases[repr((inp['aff'], inp['dic']))] = 1
            rec.sample(dict(aff=inp['aff'][-120:], dic=inp['dic'][-60:]))
        try:
            d, _ = with_steps(self.LOAD, lambda: Dictionary.from_zip(base + '.zip') if inp['zip'] else Dictionary.from_files(base))
        except Steps:
            raise Problem(f'loading: no end after {self.LOAD} executed lines')
        except (RecursionError, MemoryError) as e:
            raise Problem(f'loading: raised {type(e).__name__}')
        except Exception:   # pylint: disable=broad-except
            # a dictionary that makes no sense may be refused
            rec.count('loads that raised')
            return
        rec.count('loads that returned')
        words = list(dict.fromkeys(inp['words'] + [w.stem for w in d.dic.words if len(w.stem) < 8][:5]))
        # (not if there are hundreds of places to break or split: known findings of T01)
        if LONG in inp['aff'] + inp['dic'] and 'COMPOUND' not in inp['aff'] and not re.search(r'(?m)BREAK\s+a\s*$', inp['aff']):
            words += [LONG, 'a' + LONG, LONG + 'a', 'ab' + LONG, LONG + 'ab', LONG[:-1]]
            rec.count('words of 1500 letters with parts as long in the files')

        def call(kind, w, limit, fn):
            rec.count('evaluations')
            rec.count(f'calls: {kind}')
            try:
                return guarded(f'{kind} of {w!r}', lambda: with_steps(limit, fn))[0]
            except Steps:
                raise Problem(f'{kind} of {w!r}: no end after {limit} executed lines')
        for w in words:
            r = call('lookup', w, self.LOOKUP, lambda: d.lookup(w))
            if r is not True and r is not False:
                raise Problem(f'lookup({w!r}) is {r!r}')
        for w in words[:5]:
            r = call('suggest', w, self.SUGGEST, lambda: list(islice(d.suggest(w), 1000)))
            if len(r) >= 1000 or not all(isinstance(t, str) for t in r):
                raise Problem(f'suggest({w!r}) is {r[:20]!r}...')

    def shrinks(self, inp):
        for key in ('aff', 'dic'):
            lines = inp[key].split('\n')
            size = len(lines) // 2
            while size >= 1:
                for a in range(0, len(lines), size):
                    yield dict({k: v for k, v in inp.items() if not k.startswith('_')}, **{key: '\n'.join(lines[:a] + lines[a + size:])})
                size //= 2
        for w in inp['words']:
            if len(inp['words']) > 1:
                yield dict({k: v for k, v in inp.items() if not k.startswith('_')}, words=[w])


# ---------------------------------------------------------------------------------------------
# H01

def canon(x):
    """Order of sets does not matter"""
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted(x)
    if isinstance(x, dict):
        return [[canon(k), canon(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return x


def form_text(f):
    parts = getattr(f, 'parts', None)
    if parts is not None:
        return [form_text(p) for p in parts]

    def a(x):
        return None if x is None else [x.flag, x.strip, x.add]
    return [f.text, f.stem, a(f.prefix), a(f.suffix), a(f.prefix2), a(f.suffix2)]


def answer(d, op):
    """Answer of a dictionary to one question; exceptions are answers, too"""
    kind, w, k = op
    try:
        if kind == 'lookup':
            return d.lookup(w)
        if kind == 'suggest':
            return list(islice(d.suggest(w), k)) if k is not None else list(d.suggest(w))
        if kind == 'kinds':
            return [[s.text, s.kind] for s in d.suggester.suggestions(w)]
        return [form_text(f) for f in islice(d.lookuper.good_forms(w, **(k or {})), 200)]
    except Exception as e:      # pylint: disable=broad-except
        return f'raised {type(e).__name__}: {e}'


def cheap(model, words, nsug, cap=2500):
    """(words that may be looked up, words that may be corrected) at a modest cost"""
    sm = SugModel(model)
    ok, sug = [], []
    for w in words:
        if breaks(model, w) > 5:
            continue
        model.limit(cap)
        try:
            model.lookup(w)
            ok.append(w)
            if len(sug) < nsug:
                model.limit(cap * 2)
                sm.corrections(w)
                sug.append(w)
        except TooExpensive:
            pass
    return ok, sug


GOODKW = [None, None, dict(capitalization=False), dict(allow_nosuggest=False), dict(compound_forms=False), dict(affix_forms=False),
          dict(capitalization=False, affix_forms=False)]


def questions(rng, model, words, n, nsug):
    ok, sug = cheap(model, words, nsug)
    ops = []
    for _ in range(n):
        k = wchoice(rng, [('lookup', 5), ('suggest', 4), ('kinds', 1), ('forms', 2)])
        pool = sug if k in ('suggest', 'kinds') else ok
        if pool:
            ops.append([k, rng.choice(pool), rng.choice([None, None, 1, 2]) if k == 'suggest' else
                        rng.choice(GOODKW) if k == 'forms' else None])
    return ops


def tree(folder):
    out = {}
    for root, _dirs, files in os.walk(folder):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, folder)] = (h.read(), os.stat(p).st_mtime_ns)
    return out


class History(SpecCheck):
    """Nothing of spylls runs in the worker itself: every dictionary lives in a process forked for it"""
    fixtures = .2
    bundled = .01
    bundled_names = ('en_US', 'ru')
    nwords = 16
    maxlen = 9

    def make_one(self, rng, n, nsug=6):
        spec, extra, name = self.make_spec(rng)
        if spec is None:
            return None
        model = Model(spec)
        model.limit(20000)
        wg = WordGen(rng, spec, model)
        words = wg.words(self.nwords, self.mix, self.maxlen) + [w for w in (extra or []) if len(w) < 14][:6]
        rng.shuffle(words)
        if rng.random() < .5:
            words = family(rng, wg, words[:2], self.maxlen) or words
        rep = random_rep(rng, spec)
        return dict(spec=spec, rep=rep, ops=questions(rng, model, words, n, nsug))


def family(rng, wg, bases, maxlen):
    """A few words and what is close to them: work done for one of them is met again by the others"""
    out = []
    bases = bases + [rng.choice(wg.forms or wg.stems or ['a'])]
    for w in bases:
        out += [w, wg.mutate(w), wg.recase(w), w + '-' + rng.choice(bases), wg.mutate(w) + '-' + rng.choice(bases),
                rng.choice(bases) + '-' + wg.mutate(w)]
    out = [w for w in dict.fromkeys(out) if w and len(w) <= maxlen + 6]
    rng.shuffle(out)
    return out


def sibling(rng, spec):
    """The same words (nearly) with other tables, settings and flags"""
    s = S.from_json(S.to_json(spec))

    def other(rows):
        if not rows or rng.random() < .3:
            return rows
        left, right = [r[0] for r in rows], [r[1] for r in rows]
        rng.shuffle(right)
        rows = list(zip(left, right))
        return [r for r in rows if rng.random() < .85] or rows
    s.rep, s.phone, s.oconv = other(s.rep), other(s.phone), other(s.oconv)
    s.map = [m for m in s.map if rng.random() < .6]
    if s.brk and rng.random() < .5:
        s.brk = s.brk[1:]
    for k in s.strs:
        if k in ('TRY', 'KEY') and len(s.strs[k]) > 1 and rng.random() < .5:
            s.strs[k] = s.strs[k][:-1]
    for k in s.ints:
        if rng.random() < .5:
            s.ints[k] += 1
    s.bools = [b for b in s.bools if rng.random() < .7 or b == 'CHECKSHARPS']
    for a in s.affixes:
        if rng.random() < .3:
            a.cross = not a.cross
        if len(a.rules) > 1 and rng.random() < .4:
            a.rules.pop(rng.randrange(len(a.rules)))
    flags = [w.flags for w in s.words]
    if rng.random() < .6:
        rng.shuffle(flags)
    for w, f in zip(s.words, flags):
        w.flags = f
    if len(s.words) > 2:
        s.words.pop(rng.randrange(len(s.words)))
    return s


def run_child(fn, wall=120):
    st, res = in_child(fn, wall)
    if st == 'timeout':
        raise RuntimeError('no answer of a child process')
    if st == 'error':
        raise RuntimeError('a child process failed')
    if st == 'died':
        raise Problem('the process asking the dictionary died')
    if isinstance(res, Problem):
        raise res
    return res


def problem_safe(fn):
    def inner():
        try:
            return fn()
        except Problem as e:
            return e
    return inner


class H01(History):
    id = 'H01'
    technique = 'differential monitor: a history of calls in one process against one fresh process per call'
    rule = ('A case is a set of dictionaries and a history of loads, lookups, suggestions (complete and abandoned) and analyses on '
            'them in one process. An evaluation is the comparison of one answer of the history with the answer of a process that '
            'loaded just that dictionary and asked just that question, or of the loaded data before and after. It is non-trivial if '
            'at least one other call preceded it.')
    profiles = [(profile(**dict(RICH, words=(3, 12))), 3), (profile(**dict(SUG, rep=.3, ph=.3, map=.3, phone=.3, words=(5, 14))), 3),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .7), words=(4, 10))), 1), (profile(words=(2, 8), ph=.5), 1)]
    quick, thorough = 520, 3200
    need = {'evaluations': 8000, 'compared: suggest': 1500, 'compared: lookup': 2000, 'compared: forms': 800, 'compared: data': 1500,
            'questions after loading another dictionary': 2000, 'questions after a similar dictionary': 1200, 'repeated questions': 400, 'dictionaries without REP after phonetic tags': 60}

    def make(self, rng, i):
        dicts = [x for x in (self.make_one(rng, rng.randint(4, 9)) for _ in range(rng.choice([1, 1, 2, 3]))) if x]
        if not dicts:
            return None
        if len(dicts) < 3 and len(dicts[0]['spec'].words) < 200 and rng.random() < .6:
            spec = sibling(rng, dicts[0]['spec'])
            model = Model(spec)
            model.limit(20000)
            asked = list(dict.fromkeys(op[1] for op in dicts[0]['ops']))
            ops = questions(rng, model, asked, rng.randint(4, 9), 6) if asked else []
            dicts.insert(rng.randint(0, len(dicts)), dict(spec=spec, rep=random_rep(rng, spec), ops=ops, sibling=True))
        hist = []
        for k, x in enumerate(dicts):
            hist.append(['load', k, None])
            mine = [[op, k, j] for j, op in enumerate(['ask'] * len(x['ops']))]
            mine += rng.sample(mine, min(2, len(mine)))     # asked again
            pos = len(hist)
            if rng.random() < .3:
                rng.shuffle(mine)
            for m in mine:
                hist.insert(rng.randint(pos, len(hist)), m)
        # mix: dictionaries are loaded at random moments, questions follow their load
        loads = [h for h in hist if h[0] == 'load']
        asks = [h for h in hist if h[0] == 'ask']
        rng.shuffle(asks)
        out = []
        pending = list(loads)
        out.append(pending.pop(0))
        loaded = {out[0][1]}
        while asks or pending:
            if pending and (rng.random() < .15 or not any(a[1] in loaded for a in asks)):
                h = pending.pop(0)
                loaded.add(h[1])
                out.append(h)
                continue
            j = next(j for j, a in enumerate(asks) if a[1] in loaded)
            out.append(asks.pop(j))
        return dict(dicts=dicts, history=out, _model=None)

    def paths(self, inp):
        folder = os.path.join(self.scratch, 'h')
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        for k, x in enumerate(inp['dicts']):
            S.write(x['spec'], x['rep'], os.path.join(folder, f'd{k}'))
        return folder

    def judge(self, inp, rec):
        folder = self.paths(inp)
        before = tree(folder)

        def fresh(k, ops):
            # a process of its own for every question, started from one that has just loaded the dictionary and asked nothing
            def fn():
                d = load(os.path.join(folder, f'd{k}'))
                data = canon(public(d))
                return data, [run_child(lambda op=op: answer(d, op)) for op in ops]
            return run_child(problem_safe(fn))

        def history():
            ds, data, out = {}, {}, []
            for kind, k, j in inp['history']:
                if kind == 'load':
                    ds[k] = load(os.path.join(folder, f'd{k}'))
                    data[k] = canon(public(ds[k]))
                    out.append(None)
                elif j < len(inp['dicts'][k]['ops']):
                    out.append(answer(ds[k], inp['dicts'][k]['ops'][j]))
                else:
                    out.append(None)
            gc.collect()
            return data, out, {k: canon(public(d)) for k, d in ds.items()}

        want = {}
        for k, x in enumerate(inp['dicts']):
            want[k] = fresh(k, x['ops'])
        data, got, after = run_child(problem_safe(history))
        n, asked, loaded, phonetic = 0, set(), set(), False
        for k in data:
            for what, a in (('loaded after others', data[k]), ('after the history', after[k])):
                rec.count('evaluations')
                rec.count('compared: data')
                if a != want[k][0]:
                    raise Problem(f'data of dictionary {k} {what} differ: {first_difference(want[k][0], a)}')
                n += len(data) > 1 or what != 'loaded after others'
        for (kind, k, j), g in zip(inp['history'], got):
            if kind == 'load':
                loaded.add(k)
                spec = inp['dicts'][k]['spec']
                if not spec.rep and phonetic:
                    rec.count('dictionaries without REP after phonetic tags')
                phonetic = phonetic or any(t == 'ph' for w in spec.words for t, _ in w.data)
                continue
            if j >= len(inp['dicts'][k]['ops']):
                continue
            op = inp['dicts'][k]['ops'][j]
            rec.count('evaluations')
            rec.count(f'compared: {op[0]}')
            rec.count('questions after loading another dictionary', len(loaded) > 1)
            rec.count('questions after a similar dictionary', len(loaded) > 1 and any(x.get('sibling') for x in inp['dicts']))
            rec.count('repeated questions', (k, j) in asked)
            n += bool(asked)
            asked.add((k, j))
            if g != want[k][1][j]:
                raise Problem(f'{op[0]}({op[1]!r}) of dictionary {k} is {g!r} after {len(asked) - 1} other questions, '
                              f'{want[k][1][j]!r} if asked first')
        now = tree(folder)
        rec.count('evaluations')
        rec.count('compared: files', len(now))
        if now != before:
            raise Problem(f'source files changed: {sorted(set(k for k in {**now, **before} if now.get(k) != before.get(k)))}')
        if '_model' in inp:
            rec.cases[repr(inp['history']) + repr([x['ops'] for x in inp['dicts']])] = n
        rec.sample(dict(history=inp['history'][:8], questions=inp['dicts'][0]['ops'][:5]))

    def shrinks(self, inp):
        yield from history_shrinks(inp)


def history_shrinks(inp):
    def with_(**kw):
        c = {k: v for k, v in inp.items() if not k.startswith('_')}
        c.update(kw)
        return c
    hist = inp['history']
    if len(inp['dicts']) > 1:
        for k in range(len(inp['dicts'])):
            yield with_(dicts=[x for j, x in enumerate(inp['dicts']) if j != k],
                        history=[[a, b - (b > k), c] for a, b, c in hist if b != k])
    size = len(hist) // 2
    while size >= 1:
        for a in range(0, len(hist), size):
            h = [x for j, x in enumerate(hist) if not a <= j < a + size or x[0] == 'load']
            if len(h) < len(hist):
                yield with_(history=h)
        size //= 2
    for k, x in enumerate(inp['dicts']):
        for i in range(len(x['spec'].words)):
            c = S.copy(x['spec'])
            del c.words[i]
            y = dict(x, spec=c)
            yield with_(dicts=[y if j == k else z for j, z in enumerate(inp['dicts'])])


def first_difference(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            extra = [x for x in b if x not in a][:2] or [x for x in a if x not in b][:2]
            return f'{path}: length {len(a)} / {len(b)} {extra}'
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                label = x[0] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) else i
                return first_difference(x, y, f'{path}/{label}')
    return f'{path}: {a!r} / {b!r}'


# ---------------------------------------------------------------------------------------------
# H02

ENVS = [{}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'PYTHONOPTIMIZE': '1'}, {'PYTHONOPTIMIZE': '2'},
        {'PYTHONDEVMODE': '1'}, {'TZ': 'Asia/Tokyo', 'LANG': 'tr_TR.UTF-8', 'LC_ALL': ''}]


class H02(History):
    id = 'H02'
    technique = 'differential monitor: the same calls in processes with different hash seeds'
    rule = ('A case is a batch of dictionaries with questions, loaded and asked in several interpreter processes with different hash '
            'seeds. An evaluation is the comparison of one answer (or of the loaded data) between two processes; it is non-trivial '
            'if the answer has at least two parts, so that an order exists.')
    profiles = [(profile(**dict(RICH, words=(6, 16), data=.6)), 3),
                (profile(**dict(SUG, rep=.5, ph=.3, map=.6, phone=.5, alphabet=['abc', 'ab', 'abcde'], words=(14, 40), stem=(2, 6))), 4),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .7), words=(5, 12), rep=.4, map=.4)), 2),
                (profile(**dict(SUG, sfx=(3, 6), pfx=(2, 4), words=(8, 20), homonym=.3)), 2),
                # many forms of equal similarity
                (profile(**dict(dict(SUG, **NOCOMP), alphabet=['ab', 'abc'], sfx=(4, 8), pfx=(2, 4), add=(0, 1), cond=.1, aff_flag=.7, cont=.05, words=(3, 8),
                                stem=(4, 8), TRY=.2, KEY=.1, MAXNGRAMSUGS=.9, rep=0., map=0.)), 3)]
    quick, thorough = 90, 560
    per_case = 10
    need = {'evaluations': 15000, 'compared: suggest': 4000, 'compared: data': 1500, 'compared: forms': 2000, 'answers with an order': 3000,
            'hash seeds': 180, 'environment: LC_ALL': 40, 'environment: PYTHONOPTIMIZE': 40, 'environment: PYTHONDEVMODE': 20}

    def make(self, rng, i):
        dicts = [x for x in (self.make_one(rng, 14, 8) for _ in range(self.per_case)) if x]
        if not dicts:
            return None
        for x in dicts:
            for op in x['ops']:
                if op[0] == 'suggest':
                    op[2] = None
        return dict(dicts=dicts, seeds=[0, rng.randrange(1, 2 ** 32), rng.randrange(1, 2 ** 32)],
                    envs=[rng.randrange(len(ENVS)) for _ in range(3)], _model=None)

    def judge(self, inp, rec):
        folder = H01.paths(self, inp)
        job = os.path.join(folder, 'job.json')
        with open(job, 'w', encoding='ascii') as f:
            json.dump([[os.path.join(folder, f'd{k}'), x['ops']] for k, x in enumerate(inp['dicts'])], f)
        outs = []
        for s, e in zip(inp['seeds'], inp['envs']):
            env = {**os.environ, 'PYTHONHASHSEED': str(s), **ENVS[e]}
            for k in ENVS[e]:
                rec.count(f'environment: {k}')
            # started as a program of its own, in another folder
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'vlib', 'asker.py'), job], env=env, cwd=folder, timeout=300,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
            if p.returncode != 0:
                raise RuntimeError(f'asker failed: {p.stderr.decode()[-2000:]}')
            outs.append(json.loads(p.stdout))
            rec.count('hash seeds')
        n = 0
        how = f'(environments {[ENVS[e] for e in inp["envs"]]})'
        for s, out in zip(inp['seeds'][1:], outs[1:]):
            for k, (a, b) in enumerate(zip(outs[0], out)):
                if a['error'] or b['error']:
                    raise Problem(f'dictionary {k}: {a["error"]} / {b["error"]}')
                rec.count('evaluations')
                rec.count('compared: data')
                n += 1
                if a['data'] != b['data']:
                    raise Problem(f'data of dictionary {k} differ between hash seeds {inp["seeds"][0]} and {s}: '
                                  f'{first_difference(a["data"], b["data"])} {how}')
                for op, x, y in zip(inp['dicts'][k]['ops'], a['answers'], b['answers']):
                    rec.count('evaluations')
                    rec.count(f'compared: {op[0]}')
                    more = isinstance(x, list) and len(x) > 1
                    rec.count('answers with an order', more)
                    n += more
                    if x != y:
                        raise Problem(f'{op[0]}({op[1]!r}) of dictionary {k} is {x!r} with hash seed {inp["seeds"][0]}, {y!r} with {s} {how}')
        if '_model' in inp:
            rec.cases[repr([x['ops'] for x in inp['dicts']])] = n
        rec.sample(dict(seeds=inp['seeds'], questions=inp['dicts'][0]['ops'][:5], answers=outs[0][0]['answers'][:5]))

    def shrinks(self, inp):
        def with_(**kw):
            c = {k: v for k, v in inp.items() if not k.startswith('_')}
            c.update(kw)
            return c
        ds = inp['dicts']
        if len(ds) > 1:
            for x in ds:
                yield with_(dicts=[x])
        elif len(ds[0]['ops']) > 1:
            for op in ds[0]['ops']:
                yield with_(dicts=[dict(ds[0], ops=[op])])
        else:
            for i in range(len(ds[0]['spec'].words)):
                c = S.copy(ds[0]['spec'])
                del c.words[i]
                yield with_(dicts=[dict(ds[0], spec=c)])


# ---------------------------------------------------------------------------------------------
# H03

class Switcher:
    """Lets other threads run at random lines of the code under test"""
    TOOL = 2

    def __init__(self, seed, share):
        self.rng, self.share = random.Random(seed), share
        self.switches = 0
        self.prefix = os.path.join(REPO, 'spylls')

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'verif-switch')

        def on_line(code, _line):
            if not code.co_filename.startswith(self.prefix):
                return mon.DISABLE
            if self.rng.random() < self.share:
                self.switches += 1
                time.sleep(0)
            return None
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *_):
        sys.setswitchinterval(self.old)
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


def lines_of(fn):
    return with_steps(200_000_000, fn)


class H03(History):
    id = 'H03'
    technique = 'differential monitor: interleaved generators and threads against calls run alone; counters of executed lines'
    rule = ('A case is a dictionary with words and a schedule: an interleaving of suggestion generators with lookups in between '
            '(some generators abandoned), or threads with forced switches at random lines. An evaluation is the comparison of one '
            'sequence with the one of a dictionary used for that call alone, or of the lines executed before the first suggestion '
            'with those of the whole call. It is non-trivial if at least two calls were active at the same time, or at least two '
            'suggestions are yielded.')
    profiles = [(profile(**dict(SUG, rep=.4, map=.3, words=(6, 25))), 4), (profile(**dict(SUG, phone=.6, words=(10, 25), dash=.2)), 2),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .7), words=(5, 12), COMPOUNDMIN=.8)), 2), (profile(**dict(RICH, words=(5, 14))), 1)]
    quick, thorough = 1500, 9000
    nwords = 14
    need = {'evaluations': 9000, 'interleaved sequences': 2000, 'abandoned generators': 150, 'sequences of threads': 1000,
            'forced switches of threads': 20000, 'switches between generators': 4000, 'laziness: creation': 3000,
            'laziness: first suggestion': 150}

    def make(self, rng, i):
        kind = wchoice(rng, [('generators', 6), ('threads', 2), ('lazy', 2)])
        if kind == 'lazy':
            return self.make_lazy(rng)
        x = self.make_one(rng, 1, 8)
        if x is None:
            return None
        model = Model(x['spec'])
        wg = WordGen(rng, x['spec'], model)
        ok, sug = cheap(model, wg.words(self.nwords, [('mutant', 8), ('form', 2), ('wrong', 2), ('compound', 2), ('low', 1), ('broken', 1)],
                                        self.maxlen), 8)
        if not sug:
            return None
        calls = [rng.choice(sug) for _ in range(rng.randint(2, 6))]
        if kind == 'threads':
            return dict(kind=kind, spec=x['spec'], rep=x['rep'], calls=[[rng.choice(sug) for _ in range(2)] for _ in range(3)],
                        lookups=ok[:6], seed=rng.randrange(1 << 30), share=rng.choice([.003, .01, .04]), _model=None)
        # schedule: which generator to advance, or a word to look up
        sched = []
        for _ in range(rng.randint(3, 30)):
            if rng.random() < .2:
                sched.append(rng.choice(ok))
            else:
                sched.append(rng.randrange(len(calls)))
        drop = [rng.random() < .3 for _ in calls]
        return dict(kind=kind, spec=x['spec'], rep=x['rep'], calls=calls, schedule=sched, drop=drop, _model=None)

    def make_lazy(self, rng):
        """A long word with an early suggestion, followed by much work"""
        letters = 'abcdefghilmnoprstu'
        stems = set()
        while len(stems) < 150:
            stems.add(''.join(rng.choice(letters) for _ in range(rng.randint(6, 11))))
        stems = sorted(stems)
        rng.shuffle(stems)
        spec = S.Spec()
        spec.strs['TRY'] = letters
        w = stems[0]
        how = rng.choice(['rep', 'case', 'swap', 'map'])
        bad = w
        if how == 'rep':
            j = rng.randrange(len(w) - 1)
            spec.rep = [('qz', w[j:j + 2])]
            bad = w[:j] + 'qz' + w[j + 2:]
        elif how == 'case':
            stems[0] = w.capitalize()
            bad = w
        elif how == 'map':
            j = rng.randrange(len(w))
            spec.map = [[w[j], 'é']]
            bad = w[:j] + 'é' + w[j + 1:]
        else:
            j = rng.choice([j for j in range(len(w) - 1) if w[j] != w[j + 1]] or [0])
            bad = w[:j] + w[j + 1] + w[j] + w[j + 2:]
        spec.words = [S.Entry(s, (), []) for s in stems]
        return dict(kind='lazy', how=how, spec=spec, rep=S.default_rep(spec, rng, 'short'), word=bad, first=stems[0], _model=None)

    def judge(self, inp, rec):
        path = os.path.join(self.scratch, 'd')
        S.write(inp['spec'], inp['rep'], path)
        n = getattr(self, 'judge_' + inp['kind'])(inp, rec, path)
        if '_model' in inp:
            rec.cases[repr({k: v for k, v in inp.items() if k not in ('spec', 'rep')})] = n
        rec.sample({k: v for k, v in inp.items() if k not in ('spec', 'rep') and not k.startswith('_')})

    def alone(self, path, words):
        """Each word asked of a dictionary of its own"""
        return {w: ask_sug(load(path), w) for w in dict.fromkeys(words)}

    def judge_generators(self, inp, rec, path):
        want = self.alone(path, inp['calls'])
        looked = {w: ask(load(path), w) for w in dict.fromkeys(x for x in inp['schedule'] if isinstance(x, str))}
        d = load(path)

        def create():
            return [d.suggest(w) for w in inp['calls']]
        gens, lines = guarded('suggest()', lambda: lines_of(create))
        rec.count('evaluations', len(gens))
        rec.count('laziness: creation', len(gens))
        if lines > 100 * len(gens):
            raise Problem(f'{lines} lines executed before anything was asked of {len(gens)} generators')
        gens = [iter(g) for g in gens]
        got = [[] for _ in gens]
        over = [False] * len(gens)
        last = None

        def step(k):
            if over[k]:
                return
            w = inp['calls'][k]
            try:
                x = guarded(f'suggest({w!r}) interleaved', lambda: next(gens[k], None))
            finally:
                pass
            if x is None:
                over[k] = True
            else:
                got[k].append(x)
            if got[k] != want[w][:len(got[k])] or over[k] and got[k] != want[w]:
                raise Problem(f'suggest({w!r}) interleaved with others is {got[k]!r}, alone {want[w]!r}')
        for x in inp['schedule']:
            if isinstance(x, str):
                if ask(d, x) != looked[x]:
                    raise Problem(f'lookup({x!r}) between suggestions is {not looked[x]}, alone {looked[x]}')
                rec.count('evaluations')
            elif x < len(gens):
                rec.count('switches between generators', last not in (None, x))
                last = x
                step(x)
        n = 0
        for k, dropped in enumerate(inp['drop'][:len(gens)]):
            if dropped:
                rec.count('abandoned generators', not over[k])
                gens[k] = None
                over[k] = True
        gc.collect()
        for k in range(len(gens)):
            while not over[k]:
                step(k)
            rec.count('evaluations')
            rec.count('interleaved sequences')
            n += len(gens) > 1
        # and once more, alone, after all that
        w = inp['calls'][0]
        if ask_sug(d, w) != want[w]:
            raise Problem(f'suggest({w!r}) after other generators is {ask_sug(d, w)!r}, alone {want[w]!r}')
        rec.count('evaluations')
        return n

    def judge_threads(self, inp, rec, path):
        want = self.alone(path, [w for ws in inp['calls'] for w in ws])
        looked = {w: ask(load(path), w) for w in inp['lookups']}
        d = load(path)
        out = [None] * len(inp['calls'])

        def run(k):
            try:
                res = []
                for w in inp['calls'][k]:
                    res.append((w, list(d.suggest(w)), {x: d.lookup(x) for x in inp['lookups']}))
                out[k] = res
            except BaseException as e:      # pylint: disable=broad-except
                out[k] = e
        ts = [threading.Thread(target=run, args=(k,)) for k in range(len(out))]
        with Switcher(inp['seed'], inp['share']) as sw:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        rec.count('forced switches of threads', sw.switches)
        n = 0
        for res in out:
            if isinstance(res, BaseException):
                raise Problem(f'with several threads: raised {type(res).__name__}: {res}')
            for w, sug, looks in res:
                rec.count('evaluations', 1 + len(looks))
                rec.count('sequences of threads')
                n += 1 + len(looks)
                if sug != want[w]:
                    raise Problem(f'suggest({w!r}) with several threads is {sug!r}, alone {want[w]!r}')
                if looks != looked:
                    raise Problem(f'lookups with several threads are {looks!r}, alone {looked!r}')
        return n

    def judge_lazy(self, inp, rec, path):
        d = load(path)
        w = inp['word']
        total, all_lines = guarded(f'suggest({w!r})', lambda: lines_of(lambda: list(d.suggest(w))))
        again, all_lines = guarded(f'suggest({w!r})', lambda: lines_of(lambda: list(d.suggest(w))))
        g, created = guarded(f'suggest({w!r})', lambda: lines_of(lambda: d.suggest(w)))
        first, lines = guarded(f'suggest({w!r})', lambda: lines_of(lambda: next(iter(g), None)))
        lines += created
        rec.count('evaluations', 2)
        rec.count('laziness: creation')
        if created > 100:
            raise Problem(f'{created} lines executed by suggest({w!r}) before anything was asked')
        if not total or total[0] != inp['first'] or again != total or first != total[0]:
            # decided by other properties
            rec.count('laziness: another first suggestion')
            return 0
        rec.count('laziness: first suggestion')
        rec.count(f'laziness: {inp["how"]} {round(lines / all_lines, 1)} of the work')
        if lines > .5 * all_lines:
            raise Problem(f'{lines} of the {all_lines} lines of suggest({w!r}) ({len(total)} suggestions) executed for the first one')
        return 1

    def shrinks(self, inp):
        def with_(**kw):
            c = {k: v for k, v in inp.items() if not k.startswith('_')}
            c.update(kw)
            return c
        if inp['kind'] == 'lazy':
            return
        if inp['kind'] == 'generators':
            sched = inp['schedule']
            size = len(sched) // 2
            while size >= 1:
                for a in range(0, len(sched), size):
                    yield with_(schedule=sched[:a] + sched[a + size:])
                size //= 2
        for i in range(len(inp['spec'].words)):
            c = S.copy(inp['spec'])
            del c.words[i]
            yield with_(spec=c)
