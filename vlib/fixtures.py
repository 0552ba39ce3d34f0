"""
Reads existing .aff/.dic files into ``Spec`` (own parser, no spylls), to have realistic dictionaries: those of the
repository's fixtures (then mutated), and the bundled ones.
"""
import glob
import os
import re

from .spec import copy, Spec, Affix, Rule, Entry, FLAG_OPTS, INT_OPTS, STR_OPTS, BOOL_OPTS
from .harness import REPO

FIXTURES = os.path.join(REPO, 'tests', 'integrational', 'fixtures')


class Unsupported(Exception):
    pass


def parse_cond(text):
    out, i = [], 0
    if text == '.':
        return []
    while i < len(text):
        c = text[i]
        if c == '.':
            out.append(('.', ''))
        elif c == '[':
            j = text.find(']', i)
            if j < 0:
                raise Unsupported(f'condition {text}')
            body = text[i + 1:j]
            out.append(('^', body[1:]) if body.startswith('^') else ('[', body))
            if not out[-1][1]:
                raise Unsupported(f'condition {text}')
            i = j
        elif c in '()*+?\\|^${}':
            raise Unsupported(f'condition {text}')
        else:
            out.append(('c', c))
        i += 1
    return out


class Reader:
    def __init__(self, base):
        raw = open(base + '.aff', 'rb').read()
        enc, fmt = 'cp1252', 'short'
        head = raw.decode('latin-1')
        for ln in head.splitlines():
            t = ln.lstrip('\xef\xbb\xbf').split()
            if len(t) > 1 and t[0] == 'SET':
                enc = t[1]
            if len(t) > 1 and t[0] == 'FLAG':
                fmt = t[1]
        if fmt == 'UTF-8':
            enc = 'UTF-8'
        self.enc, self.fmt = enc, fmt
        try:
            aff = raw.decode(enc)
            dic = open(base + '.dic', 'rb').read().decode(enc)
        except (UnicodeDecodeError, LookupError):
            raise Unsupported('encoding')
        self.aff = [x for x in (l.strip() for l in aff.lstrip('﻿').split('\n')) if x]
        self.dic = [x for x in (l.strip() for l in dic.lstrip('﻿').split('\n')) if x]
        self.ids = {}
        self.af = {}
        self.am = {}
        self.spec = Spec()

    def fid(self, tok):
        return self.ids.setdefault(tok, len(self.ids) + 1)

    def flagtoks(self, text):
        if self.fmt == 'long':
            return [text[i:i + 2] for i in range(0, len(text) - 1, 2)]
        if self.fmt == 'num':
            return [t for t in text.split(',') if t]
        return list(text)

    def flags(self, text):
        if not text:
            return ()
        if self.af and text.isdigit():
            return self.af[text]
        return tuple(dict.fromkeys(self.fid(t) for t in self.flagtoks(text)))

    def flag1(self, text):
        return self.fid(self.flagtoks(text)[0])

    def read(self) -> Spec:
        s = self.spec
        i = 0
        while i < len(self.aff):
            t = self.aff[i].split()
            i += 1
            name = {'PSEUDOROOT': 'NEEDAFFIX', 'COMPOUNDLAST': 'COMPOUNDEND'}.get(t[0], t[0])

            def rows(n):
                nonlocal i
                out = [x.split()[1:] for x in self.aff[i:i + n]]
                i += n
                return out
            if name in ('SET', 'FLAG'):
                continue
            if name in STR_OPTS:
                if len(t) < 2:
                    raise Unsupported(name)
                s.strs[name] = t[1]
            elif name in INT_OPTS:
                s.ints[name] = int(t[1])
            elif name in FLAG_OPTS:
                s.flags[name] = self.flag1(t[1])
            elif name in BOOL_OPTS:
                if name not in s.bools:
                    s.bools.append(name)
            elif name in ('SFX', 'PFX'):
                flag = self.fid(t[1])
                rules = []
                if int(t[3]) == 0:
                    raise Unsupported('empty affix')
                for r in rows(int(t[3])):
                    add, _, fl = r[2].partition('/')
                    cond = parse_cond(r[3]) if len(r) > 3 else None
                    if cond is None:
                        raise Unsupported('no condition')
                    rules.append(Rule('' if r[1] == '0' else r[1], '' if add == '0' else add, cond, self.flags(fl)))
                s.affixes.append(Affix(name[0], flag, t[2] == 'Y', rules))
            elif name == 'REP':
                s.rep = [(r[0], r[1]) for r in rows(int(t[1]))]
            elif name == 'MAP':
                for r in rows(int(t[1])):
                    s.map.append([m.strip('()') for m in re.findall(r'\([^()]+\)|[^()]', r[0])])
            elif name == 'BREAK':
                s.brk = [r[0] for r in rows(int(t[1]))]
            elif name == 'COMPOUNDRULE':
                for r in rows(int(t[1])):
                    if '(' in r[0]:
                        toks = re.findall(r'\(([^()*?]+)\)([*?]?)', r[0])
                    elif self.fmt in ('short', 'UTF-8'):
                        toks = re.findall(r'([^*?])([*?]?)', r[0])
                    else:
                        raise Unsupported('rule')
                    s.crules.append([(self.fid(a), q) for a, q in toks])
            elif name in ('ICONV', 'OCONV'):
                setattr(s, name.lower(), [(r[0], r[1]) for r in rows(int(t[1]))])
            elif name == 'CHECKCOMPOUNDPATTERN':
                for r in rows(int(t[1])):
                    l, _, lf = r[0].partition('/')
                    rt, _, rf = r[1].partition('/')
                    s.pats.append((l, self.fid(lf) if lf else None, rt, self.fid(rf) if rf else None))
            elif name == 'AF':
                for n, r in enumerate(rows(int(t[1]))):
                    self.af[str(n + 1)] = tuple(dict.fromkeys(self.fid(x) for x in self.flagtoks(r[0])))
            elif name == 'AM':
                for n, r in enumerate(rows(int(t[1]))):
                    self.am[str(n + 1)] = r
            elif name == 'PHONE':
                s.phone = [(r[0], r[1]) for r in rows(int(t[1]))]
            elif name == 'COMPOUNDSYLLABLE':
                raise Unsupported(name)
        for n, ln in enumerate(self.dic):
            if n == 0 and re.match(r'\d+(\s|$)', ln):
                continue
            s.words.append(self.entry(ln))
        self.check()
        return s

    def entry(self, ln):
        m = re.search(r'[ \t]\w\w:|\t', ln)
        head, tail = (ln[:m.start()], ln[m.start():]) if m else (ln, '')
        if head.startswith('/'):
            stem, flags = head, ''
        else:
            parts = re.split(r'(?<!\\)/', head)
            stem, flags = parts if len(parts) == 2 else (head, '')
        stem = stem.replace('\\/', '/')
        data = []
        toks = tail.split()
        for tok in toks:
            if ':' in tok:
                a, _, b = tok.partition(':')
                if b:
                    data.append((a, b))
            elif tok.isdigit() and self.am:
                toks.extend(self.am[tok])
        return Entry(stem, self.flags(flags), data)

    def check(self):
        s = self.spec
        for a in s.affixes:
            for r in a.rules:
                if '\\' in r.strip + r.add or '/' in r.add:
                    raise Unsupported('affix text')
        if any('#' in x for row in (s.phone or []) for x in row):
            raise Unsupported('phone')
        for a, _ in s.phone or []:
            m = re.fullmatch(r'([^\W\d]+)(\(\w+\))?(-*)([\^$<]*)\d?', a)
            if not m or len(m.group(3)) >= len(m.group(1)) + (1 if m.group(2) else 0):
                raise Unsupported('phone')
        if len(s.all_flags()) > 60:
            raise Unsupported('too many flags')
        for w in s.words:
            if not w.stem or '#' in w.stem and ' ' in w.stem:
                raise Unsupported('stem')
            if s.flags.get('CHECKSHARPS') and w.stem.lower().count('ss') > 3:
                raise Unsupported('ss')
        for a, b in s.rep:
            if '^' in a[1:] or '$' in a[:-1]:
                raise Unsupported('rep')
        if s.ints.get('COMPOUNDMIN', 3) < 1:
            raise Unsupported('COMPOUNDMIN')


def fixture_names():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(FIXTURES, '*.aff')))


_cache = None


def fixture_specs(maxwords=400):
    """{name: (spec, words mentioned in the fixture's .good/.wrong files)}"""
    global _cache
    if _cache is None:
        _cache = {}
        for name in fixture_names():
            base = os.path.join(FIXTURES, name)
            try:
                spec = Reader(base).read()
            except (Unsupported, OSError, ValueError, IndexError, KeyError):
                continue
            if len(spec.words) > maxwords or not spec.words:
                continue
            words = []
            for ext in ('.good', '.wrong'):
                if os.path.exists(base + ext):
                    text = open(base + ext, 'rb').read()
                    try:
                        words += [w.strip() for w in text.decode('utf-8').lstrip('﻿').split('\n') if w.strip()]
                    except UnicodeDecodeError:
                        words += [w.strip() for w in text.decode('latin-1').split('\n') if w.strip()]
            _cache[name] = (spec, words)
    return _cache


def bundled(name):
    sub = {'en_US': 'en', 'ru': 'ru', 'sv_SE': 'sv'}[name]
    return Reader(os.path.join(REPO, 'spylls', 'hunspell', 'data', sub, name)).read()


_bundled = {}


def bundled_sample(name, rng, n):
    """A bundled dictionary reduced to n random entries"""
    if name not in _bundled:
        r = Reader(os.path.join(REPO, 'spylls', 'hunspell', 'data', {'en_US': 'en', 'ru': 'ru', 'sv_SE': 'sv'}[name], name))
        r.all_dic, r.dic = r.dic, []
        spec = r.read()
        _bundled[name] = (r, spec)
    r, spec = _bundled[name]
    spec = copy(spec)
    lines = r.all_dic[1:]
    spec.words = [r.entry(rng.choice(lines)) for _ in range(n)]
    return spec
