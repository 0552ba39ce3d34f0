"""Checks of loading: L01-L03"""
import os
import re
import shutil

from . import spec as S
from .common import SpecCheck, load, ask, ask_sug, guarded
from .gen import profile, wchoice
from .harness import Problem
from .model import Model, TooExpensive
from .sugmodel import SugModel, DEFAULT_KEY

DEFAULTS = dict(
    SET='Windows-1252', FLAG='short', LANG=None, WORDCHARS=None, IGNORE=None, KEY=DEFAULT_KEY, TRY='', REP=[], MAP=[], PHONE=None,
    MAXCPDSUGS=3, MAXNGRAMSUGS=4, MAXDIFF=-1, PFX={}, SFX={}, BREAK=['-', '^-', '-$'], COMPOUNDRULE=[], COMPOUNDMIN=3,
    COMPOUNDWORDMAX=None, CHECKCOMPOUNDPATTERN=[], COMPOUNDSYLLABLE=None, ICONV=None, OCONV=None, AF={}, AM={})
for _n in S.FLAG_OPTS:
    DEFAULTS[_n] = None
for _n in S.BOOL_OPTS:
    DEFAULTS[_n] = False


def public(d):
    """What a loaded dictionary exposes, as plain data"""
    aff = d.aff
    out = {}
    for name in DEFAULTS:
        v = getattr(aff, name)
        if name == 'IGNORE':
            v = None if v is None else v.chars
        elif name == 'REP':
            v = [(r.pattern, r.replacement) for r in v]
        elif name == 'MAP':
            v = [list(x) for x in v]
        elif name == 'BREAK':
            v = [b.pattern for b in v]
        elif name == 'COMPOUNDRULE':
            v = [r.text for r in v]
        elif name == 'CHECKCOMPOUNDPATTERN':
            v = [(p.left, p.right, p.replacement) for p in v]
        elif name in ('ICONV', 'OCONV'):
            v = None if v is None else [tuple(p) for p in v.pairs]
        elif name == 'PHONE':
            v = None if v is None else [tuple(p) for p in v.table]
        elif name in ('PFX', 'SFX'):
            v = {k: [(a.flag, a.crossproduct, a.strip, a.add, a.condition, set(a.flags)) for a in rows] for k, rows in v.items()}
        elif name == 'AF':
            v = {k: set(x) for k, x in v.items()}
        elif name == 'AM':
            v = {k: list(x) for k, x in v.items()}
        out[name] = v
    words = [(w.stem, set(w.flags), {k: list(x) for k, x in w.data.items()}, list(w.alt_spellings)) for w in d.dic.words]
    return out, words


def expected(spec, rep):
    """The same, from the Spec"""
    writer = S.Writer(spec, rep)
    writer.render()
    model = Model(spec)
    fl = rep.flagmap
    out = {k: (v.copy() if isinstance(v, (list, dict)) else v) for k, v in DEFAULTS.items()}
    if rep.encoding:
        out['SET'] = rep.encoding
    if rep.fmt == 'UTF-8':
        out['SET'] = 'UTF-8'
    out['FLAG'] = rep.fmt
    out.update(spec.strs)
    out.update(spec.ints)
    out['COMPOUNDMIN'] = max(1, out['COMPOUNDMIN'])
    for b in spec.bools:
        out[b] = True
    for k, f in spec.flags.items():
        out[k] = fl[f]
    for a in spec.affixes:
        out['PFX' if a.kind == 'P' else 'SFX'][fl[a.flag]] = [
            (fl[a.flag], a.cross, r.strip, model.strip_ignored(r.add), '' if writer.no_cond(r) else S.cond_text(r.cond), {fl[f] for f in r.flags}) for r in a.rules]
    out['REP'] = list(model.rep)
    out['MAP'] = [list(m) for m in spec.map]
    if spec.brk is not None:
        out['BREAK'] = list(spec.brk)
    par = rep.fmt in ('long', 'num')
    out['COMPOUNDRULE'] = [''.join((f'({fl[f]})' if par else fl[f]) + q for f, q in r) for r in spec.crules]
    out['CHECKCOMPOUNDPATTERN'] = [(a + ('/' + fl[b] if b is not None else ''), c + ('/' + fl[d] if d is not None else ''),
                                    'xy' if rep.pat_repl and i % 2 else None) for i, (a, b, c, d) in enumerate(spec.pats)]
    if out['COMPOUNDSYLLABLE']:
        n, vowels = out['COMPOUNDSYLLABLE'].split()
        out['COMPOUNDSYLLABLE'] = (int(n), vowels)
    for k in ('iconv', 'oconv'):
        rows = getattr(spec, k)
        out[k.upper()] = None if rows is None else [tuple(r) for r in rows]
    out['PHONE'] = None if spec.phone is None else [(a, '' if b == '_' else b) for a, b in spec.phone]
    if rep.af:
        out['AF'] = {str(i + 1): {fl[f] for f in fs} for i, fs in enumerate(writer.af)}
    if rep.am:
        out['AM'] = {str(i + 1): [f'{t}:{v}' for t, v in d] for i, d in enumerate(writer.am)}
    words = []
    for w, e, alts in zip(spec.words, model.entries, model.alts):
        data = {}
        for t, v in w.data:
            data.setdefault(t, []).append(v)
        words.append((e.stem, {fl[f] for f in w.flags}, data, alts))
    return out, words


ENCODINGS = ['UTF-8', 'ISO8859-1', 'ISO8859-2', 'ISO8859-15', 'KOI8-R', 'KOI8-U', 'windows-1251', 'cp1252', 'ISO8859-7', 'utf-8', None]


def encodable(spec, rep, enc):
    try:
        ''.join(spec.chars()).encode(enc or 'Windows-1252')
        for t in rep.flagmap.values():
            t.encode(enc or 'Windows-1252')
        return True
    except UnicodeEncodeError:
        return False


def random_rep(rng, spec, *, fmt=None, formatting=True, aliases=True):
    fmt = fmt or wchoice(rng, [('short', 3), ('long', 2), ('num', 2), ('UTF-8', 2)])
    if len(spec.all_flags()) > 55:
        fmt = 'num'
    rep = S.default_rep(spec, rng, fmt)
    if aliases:
        rep.af, rep.am, rep.outdated = rng.random() < .4, rng.random() < .4, rng.random() < .4
    if rep.af and fmt == 'short' and any(t.isdigit() for t in rep.flagmap.values()):
        rep.af = False
    if formatting:
        if fmt != 'UTF-8':
            encs = [e for e in ENCODINGS if encodable(spec, rep, e)]
            rep.encoding = rng.choice(encs)
        elif rng.random() < .3:
            rep.encoding = None     # the flag type implies the encoding
        u = (rep.encoding or '').upper() == 'UTF-8'
        rep.newline = rng.choice(['\n', '\n', '\r\n'])
        rep.aff_bom = u and rng.random() < .3
        rep.dic_bom = u and rng.random() < .3
        for k in ('comments', 'blank', 'indent', 'trailing', 'tabs', 'shuffle'):
            setattr(rep, k, rng.random() < .4)
        if rng.random() < .06:
            rep.lead = rng.choice([10, 30, 70, 120, 300, 1100])
        rep.no_count = rng.random() < .15 and spec.words and not spec.words[0].stem[:1].isdigit()
    return rep


RICH = dict(words=(3, 16), NEEDAFFIX=(.3, .2), CIRCUMFIX=(.2, .3), KEEPCASE=(.3, .2), FORBIDDENWORD=(.3, .12), NOSUGGEST=(.3, .2),
            COMPOUNDFLAG=(.25, .5), COMPOUNDEND=(.15, .3), COMPOUNDBEGIN=(.15, .3), COMPOUNDMIDDLE=(.1, .3), WARN=(.2, .1), SUBSTANDARD=(.2, .1), ONLYINCOMPOUND=(.15, .2),
            COMPOUNDWORDMAX=.2, pats=.2, crules=.2, iconv=.25, oconv=.25, ignore=.2, brk=.3, rep=.4, map=.3, phone=.25, ph=.2, data=.3,
            phrase=.12, apos=.1, digit=.1, dash=.1, MAXDIFF=.3, FULLSTRIP=.2, CHECKCOMPOUNDREP=.1, SIMPLIFIEDTRIPLE=.1)


class L01(SpecCheck):
    id = 'L01'
    technique = 'reference-model monitor on the loaded data'
    sizes = [('', 94.5), ('long', 2.5), ('vast', .5), ('many', 2.5), ('huge', .4)]
    rule = ('A case is a generated dictionary written down with random flag notation, aliases, encoding, spacing, comments, line '
            'order, and loaded. An evaluation is the comparison of one exposed setting or one word entry with what was written; '
            'non-trivial evaluations are those of settings that differ from their default and of entries with flags, data tags or '
            'unusual stems.')
    profiles = [(profile(**RICH), 4), (profile(), 1), (profile(**dict(RICH, alphabet='ab01', ignore=0.)), .4), (profile(**dict(RICH, german=.4, turkic=.4)), 1)]
    fixtures = .1
    bundled = .01
    quick, thorough = 6000, 40000
    need = {'settings': 200000, 'entries': 40000, 'affix rules': 15000, 'entries with data tags': 5000, 'stems with a slash': 1000,
            'flag aliases': 1500, 'data aliases': 500}

    def make(self, rng, i):
        spec, _, name = self.make_spec(rng)
        if spec is None:
            return None
        for w in spec.words:
            if rng.random() < .12:
                k = rng.randrange(6)
                t = w.stem
                j = rng.randint(1, len(t)) if t else 0
                if k == 0:
                    t = t[:j] + '/' + t[j:]
                elif k == 1:
                    t, w.flags = '/' + t, ()
                elif k == 2:
                    t = t[:j] + rng.choice(['#', '.', "'", '&', ',']) + t[j:]
                elif k == 3:
                    t = t[:j] + ' ' + rng.choice(['x', 'y z', t[:2], '1/2']) + t[j:]
                elif k == 4:
                    t = t + rng.choice(['/x', ' /x', '//'])
                else:
                    t = t[:j] + '5' + t[j:]
                t = ' '.join(t.split())
                if t and ' ' not in t[:1] and not re.search(r'\s\w\w:', t):      # " ht:" would be a data tag
                    w.stem = t
        for w in spec.words:
            if w.stem.startswith('/'):
                w.flags = ()
        if rng.random() < .1 and 'LANG' not in spec.strs:
            spec.strs['LANG'] = rng.choice(['en_GB', 'tr', 'hu_HU'])
        if rng.random() < .2:
            spec.bools.append('COMPOUNDMORESUFFIXES')
        if rng.random() < .15:
            f = max(spec.all_flags() or [0]) + 1
            spec.flags.setdefault('SYLLABLENUM', f)
        if rng.random() < .15:
            spec.strs['COMPOUNDSYLLABLE'] = f'{rng.randint(1, 9)} aeiou'
        rep = random_rep(rng, spec)
        rep.bare_cond, rep.pat_repl = rng.random() < .3, rng.random() < .5
        return dict(spec=spec, rep=rep, words=[], _model=True)

    def model(self, inp):
        return None

    def judge(self, inp, rec):
        d = self.load(inp)
        got, words = guarded('reading the loaded data', lambda: public(d))
        want, wwords = expected(inp['spec'], inp['rep'])
        n = 0
        for k, v in want.items():
            rec.count('evaluations')
            rec.count('settings')
            if v != DEFAULTS[k]:
                n += 1
                rec.count(f'declared: {k}')
            g = got[k]
            if g != v or isinstance(v, (bool, int, str)) and type(g) is not type(v):
                raise Problem(f'{k} is {g!r}, declared {v!r}')
            if isinstance(v, dict) and list(v) != list(g) and not inp['rep'].shuffle:
                raise Problem(f'{k} is in order {list(g)!r}, declared {list(v)!r}')
        rec.count('affix rules', sum(len(a.rules) for a in inp['spec'].affixes))
        rec.count('flag aliases', len(want['AF']))
        rec.count('data aliases', len(want['AM']))
        if len(words) != len(wwords):
            raise Problem(f'{len(words)} entries, declared {len(wwords)}: {[w[0] for w in words]!r} / {[w[0] for w in wwords]!r}')
        for a, b in zip(words, wwords):
            rec.count('evaluations')
            rec.count('entries')
            rec.count('entries with data tags', bool(b[2]))
            rec.count('stems with a slash', '/' in b[0])
            n += bool(b[1] or b[2] or not b[0].isalpha())
            if a != b:
                raise Problem(f'entry is {a!r}, written {b!r}')
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags), e.data) for e in inp['spec'].words[:4]], notation=inp['rep'].fmt,
                        encoding=inp['rep'].encoding))


class Metamorphic(SpecCheck):
    """Answers of the same dictionary written in different ways"""
    nwords = 24
    nsug = 5
    maxlen = 9
    cap = 3000
    fixtures = .12
    bundled = .01
    bundled_names = ('en_US',)

    def make(self, rng, i):
        inp = super().make(rng, i)
        if inp is None:
            return None
        m = inp['_model']
        sm = SugModel(m)
        sug, words = [], []
        for w in inp['words']:
            m.limit(self.cap)
            try:
                m.lookup(w)
                words.append(w)
                if len(sug) < self.nsug:
                    m.limit(6000)
                    sm.corrections(w)
                    sug.append(w)
            except TooExpensive:
                pass
        # what is asked is chosen by cost only; the answers are those of spylls itself
        inp['words'], inp['sug'] = words, sug
        self.variants(rng, inp)
        return inp

    def make_rep(self, rng, spec):
        return S.default_rep(spec, rng, 'short' if len(spec.all_flags()) <= 55 else 'num')

    def answers(self, d, inp):
        out = {}
        for w in inp['words']:
            out['lookup', w] = ask(d, w)
        for w in inp['sug']:
            if w in inp['words']:
                out['suggest', w] = ask_sug(d, w)
        return out

    def compare(self, base, d, inp, what, rec):
        got = self.answers(d, inp)
        n = 0
        for k, v in base.items():
            rec.count('evaluations')
            rec.count(f'compared: {k[0]}')
            n += bool(v)
            if got[k] != v:
                raise Problem(f'{k[0]}({k[1]!r}) is {got[k]!r} {what}, {v!r} otherwise')
        return n

    def shrinks(self, inp):
        reps = inp['reps']
        if len(reps) > 1:
            for r in reps:
                c = {k: v for k, v in inp.items() if not k.startswith('_')}
                c['reps'] = [r]
                yield c
        yield from super().shrinks(inp)


class L02(Metamorphic):
    id = 'L02'
    technique = 'differential monitor: the same content in different containers and encodings'
    rule = ('A case is a generated dictionary stored in a reference form (UTF-8 files) and in several other forms. An evaluation is '
            'the comparison of one answer between the reference and another form; it is non-trivial if the answer is True or a '
            'non-empty list.')
    profiles = [(profile(**dict(RICH, alphabet=['aéèo', 'абвгё', 'αβγσς', 'abñü', 'aßsö', 'łśża', 'abc', 'aœšž', "ab'’"], crules=.05)), 5),
                (profile(**dict(RICH, german=.3, turkic=.4)), 1)]
    quick, thorough = 1300, 12000
    need = {'evaluations': 60000, 'compared: suggest': 10000, 'container: files': 500, 'container: zip': 500, 'container: system': 300,
            'container: cwd': 200, 'other encoding': 800, 'CRLF': 500, 'byte order mark': 150, 'invalid bytes': 100}

    def variants(self, rng, inp):
        spec = inp['spec']
        inp['reps'] = []
        for _ in range(4):
            rep = random_rep(rng, spec, fmt=inp['rep'].fmt, aliases=False)
            rep.flagmap, rep.outdated = inp['rep'].flagmap, False
            if not encodable(spec, rep, rep.encoding):
                rep.encoding = 'UTF-8'
            # a byte order mark belongs to UTF-8
            if (rep.encoding or '').upper() != 'UTF-8':
                rep.aff_bom = rep.dic_bom = False
            if rep.fmt == 'short' and len(spec.all_flags()) <= 55 and rng.random() < .2:
                # flags that are bytes not valid in the encoding
                rep.encoding = 'UTF-8'
                rep.flagmap = dict(zip(spec.all_flags(), rng.sample([chr(0xdc80 + i) for i in range(0x40)], len(spec.all_flags()))))
            inp['reps'].append(dict(rep=rep, container=wchoice(rng, [('files', 3), ('zip', 4), ('system', 2), ('cwd', 1)]),
                                    seed=rng.randrange(1 << 30)))

    def judge(self, inp, rec):
        import random
        from spylls.hunspell import Dictionary
        base = self.answers(self.load(inp), inp)
        n = 0
        for k, v in enumerate(inp['reps']):
            rep, c, rng = v['rep'], v['container'], random.Random(v['seed'])
            rec.count(f'container: {c}')
            rec.count('other encoding', (rep.encoding or '').upper() != 'UTF-8')
            rec.count('CRLF', rep.newline != '\n')
            rec.count('byte order mark', rep.aff_bom + rep.dic_bom)
            rec.count('invalid bytes', any(t >= chr(0xdc80) for t in rep.flagmap.values()))
            folder = os.path.join(self.scratch, f'v{k}')
            shutil.rmtree(folder, ignore_errors=True)
            os.makedirs(folder)
            name = rng.choice(['dict', 'en_XX', 'a.b', 'my dict', 'словарь', 'x.aff.y', 'd.dic'])
            what = f'stored as {c} ({rep.encoding}, {rep.newline!r})'
            if c == 'files':
                S.write(inp['spec'], rep, os.path.join(folder, name))
                d = load(os.path.join(folder, name), what)
            elif c == 'zip':
                path = os.path.join(folder, rng.choice(['d.zip', 'd.xpi', 'd.oxt', 'noext']))
                extra = rng.choice([[], [('README.txt', b'text'), ('META-INF/manifest.xml', b'<x/>')], [('dictionaries/', b'')]])
                S.write_zip(inp['spec'], rep, path, prefix=rng.choice(['', 'dictionaries/', 'a/b/']), extra=extra,
                            compress=rng.random() < .5, dic_first=rng.random() < .5, name=name,
                            dic_name=rng.choice([None, None, 'words', 'a.b/words']))
                d = guarded(what, lambda: Dictionary.from_zip(path))
            elif c == 'system':
                sub = os.path.join(folder, rng.choice(['hunspell', 'my.aff.dicts', 'x']))
                os.makedirs(sub)
                if name == 'my dict':
                    name = 'my_dict'
                S.write(inp['spec'], rep, os.path.join(sub, name))
                # other dictionaries must not be mistaken for it
                for other in (os.path.join(sub, name + '_2'), os.path.join(sub, '0' + name), os.path.join(folder, name)):
                    for ext, text in (('.aff', 'SET UTF-8\nTRY a\n'), ('.dic', '1\nother\n')):
                        with open(other + ext, 'w', encoding='utf-8') as f:
                            f.write(text)
                cls = type('Dict', (Dictionary,), {'PATHES': [os.path.join(folder, 'missing'), sub, folder]})
                d = guarded(what, lambda: cls.from_system(name))
            else:
                # a relative path; also if it is named as one of the dictionaries distributed with the library
                name = rng.choice(['en_US', 'ru', 'sv_SE', 'other'])
                S.write(inp['spec'], rep, os.path.join(folder, name))
                old = os.getcwd()
                os.chdir(folder)
                try:
                    d = load(name, what)
                finally:
                    os.chdir(old)
            n += self.compare(base, d, inp, what, rec)
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]],
                        forms=[(v['container'], v['rep'].encoding) for v in inp['reps']], words=inp['words'][:5]))


class L03(Metamorphic):
    id = 'L03'
    technique = 'differential monitor: the same dictionary in different flag notations'
    rule = ('A case is a generated dictionary with plain one-letter flags and the same dictionary with other flags, notations, flag '
            'aliases, data aliases, outdated names. An evaluation is the comparison of one answer between two notations; it is '
            'non-trivial if the answer is True or a non-empty list.')
    profiles = [(profile(**dict(RICH, sfx=(1, 4), pfx=(0, 3), homonym=.2)), 4),
                (profile(**dict(RICH, crules=1., COMPOUNDMIN=1., stem=(1, 3), words=(4, 10))), 2),
                (profile(**dict(RICH, COMPOUNDBEGIN=(.8, .4), COMPOUNDEND=(.8, .4), COMPOUNDMIDDLE=(.5, .4), COMPOUNDMIN=.9, stem=(1, 4),
                                NEEDAFFIX=(.7, .3))), 2)]
    quick, thorough = 1300, 12000
    mix = [('form', 6), ('wrong', 4), ('compound', 4), ('mutant', 3), ('low', .5)]
    need = {'evaluations': 80000, 'compared: suggest': 10000, 'notation: short': 700, 'notation: long': 700, 'notation: num': 700,
            'notation: UTF-8': 700, 'flags that are invalid bytes': 300, 'flag aliases': 1000, 'data aliases': 500, 'outdated names': 500}

    def variants(self, rng, inp):
        fmts = ['short', 'long', 'num', 'UTF-8'] if len(inp['spec'].all_flags()) <= 55 else ['num']
        inp['reps'] = [random_rep(rng, inp['spec'], fmt=f, formatting=False) for f in fmts]
        flags = inp['spec'].all_flags()
        if len(flags) <= 55 and rng.random() < .4:
            # single bytes that are not valid in the encoding, as in Hungarian dictionaries
            raw = rng.sample([chr(0xdc80 + i) for i in range(0x40)], len(flags))
            inp['reps'][0].flagmap = dict(zip(flags, raw))

    def judge(self, inp, rec):
        base = self.answers(self.load(inp), inp)
        n = 0
        for k, rep in enumerate(inp['reps']):
            rec.count(f'notation: {rep.fmt}')
            rec.count('flags that are invalid bytes', any(t >= chr(0xdc80) for t in rep.flagmap.values()))
            rec.count('flag aliases', rep.af)
            rec.count('data aliases', rep.am and any(w.data for w in inp['spec'].words))
            rec.count('outdated names', rep.outdated and bool({'NEEDAFFIX', 'COMPOUNDEND'} & set(inp['spec'].flags)))
            S.write(inp['spec'], rep, os.path.join(self.scratch, 'v'))
            d = load(os.path.join(self.scratch, 'v'))
            n += self.compare(base, d, inp, f'in notation {rep.fmt}{" AF" * rep.af}{" AM" * rep.am}{" outdated" * rep.outdated}', rec)
        self.seen(rec, inp, n)
        rec.sample(dict(entries=[(e.stem, list(e.flags)) for e in inp['spec'].words[:4]],
                        flags=[sorted(r.flagmap.values())[:4] for r in inp['reps']], words=inp['words'][:5]))
