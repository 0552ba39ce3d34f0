"""
Abstract dictionaries and their serialization.

A ``Spec`` is the *meaning* of an .aff/.dic pair: flags are abstract integers, affix conditions are
token lists, tables are Python lists. The reference model (``model.py``, ``sugmodel.py``) works on the
Spec only; spylls only ever sees what ``write`` makes of it. Nothing here imports spylls.
"""
import io
import json
import os
import random
import zipfile
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Tuple

FLAG_OPTS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG',
             'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG',
             'COMPOUNDFORBIDFLAG', 'FORCEUCASE', 'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT']
INT_OPTS = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']
STR_OPTS = ['KEY', 'TRY', 'WORDCHARS', 'LANG', 'IGNORE']
BOOL_OPTS = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE',
             'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF',
             'COMPOUNDMORESUFFIXES']


@dataclass
class Rule:
    strip: str
    add: str
    # condition: list of ('.', '') | ('c', char) | ('[', chars) | ('^', chars)
    cond: List[Tuple[str, str]]
    flags: Tuple[int, ...] = ()


@dataclass
class Affix:
    kind: str           # 'P' or 'S'
    flag: int
    cross: bool
    rules: List[Rule]


@dataclass
class Entry:
    stem: str
    flags: Tuple[int, ...] = ()
    data: List[Tuple[str, str]] = field(default_factory=list)


@dataclass
class Spec:
    strs: Dict[str, str] = field(default_factory=dict)
    ints: Dict[str, int] = field(default_factory=dict)
    bools: List[str] = field(default_factory=list)
    flags: Dict[str, int] = field(default_factory=dict)
    affixes: List[Affix] = field(default_factory=list)
    rep: List[Tuple[str, str]] = field(default_factory=list)
    map: List[List[str]] = field(default_factory=list)
    brk: Optional[List[str]] = None
    crules: List[List[Tuple[int, str]]] = field(default_factory=list)
    iconv: Optional[List[Tuple[str, str]]] = None
    oconv: Optional[List[Tuple[str, str]]] = None
    pats: List[Tuple[str, Optional[int], str, Optional[int]]] = field(default_factory=list)
    phone: Optional[List[Tuple[str, str]]] = None
    words: List[Entry] = field(default_factory=list)

    def all_flags(self):
        res = set(self.flags.values())
        for a in self.affixes:
            res.add(a.flag)
            for r in a.rules:
                res.update(r.flags)
        for w in self.words:
            res.update(w.flags)
        for r in self.crules:
            res.update(f for f, _ in r)
        for _, f1, _, f2 in self.pats:
            res.update(f for f in (f1, f2) if f is not None)
        return sorted(res)

    def chars(self):
        """All text characters a file encoding has to represent."""
        out = set()
        for s in self.strs.values():
            out.update(s)
        for a in self.affixes:
            for r in a.rules:
                out.update(r.strip + r.add + ''.join(c for _, c in r.cond))
        for tab in (self.rep, self.iconv or [], self.oconv or [], self.phone or []):
            for x, y in tab:
                out.update(x + y)
        for m in self.map:
            out.update(''.join(m))
        for b in self.brk or []:
            out.update(b)
        for l, _, r, _ in self.pats:
            out.update(l + r)
        for w in self.words:
            out.update(w.stem)
            for t, v in w.data:
                out.update(t + v)
        return out


# ---------------------------------------------------------------------------------------------
# Representation: how the Spec is written down

SHORT_POOL = list('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&+,-.:;<=>@[]^_`{|}~')
UTF_POOL = list('αβγδεζηθжшщюяöäüñçøłß€¿¡«»АБВГДЕЖЗ') + list('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
LONG_CHARS = 'ABCDEabcdeXYZxyz0129!#$%&+,-.:;<=>@[]^_{|}~'
NUM_POOL = [1, 2, 3, 5, 7, 11, 12, 21, 22, 111, 112, 121, 122, 211, 212, 222, 1001, 1002, 1011, 2112, 65000, 65001,
            65509] + list(range(300, 360))
COMMENTS = ['# comment', '#', 'NAME Some Dictionary', 'HOME http://example.com', 'lower case text', 'VERSION 3',
            '#SFX A Y 1', 'Some text about REP and SFX', 'UNKNOWNDIRECTIVE 3', 'sfx A Y 1', 'Try xyz', 'TRY2 xyz', 'SFXA Y 1', 'X-SET KOI8-R',
            '# SET KOI8-R', 'set KOI8-R', 'NOSUGGESTX !', '1 2 3', '/x', "TRY'xyz", 'COMPOUNDFLAGS A B', 'REP_ 1', 'MAPPING 2', 'FLAGS long']


@dataclass
class Rep:
    """How to write a Spec down."""
    fmt: str = 'short'
    flagmap: Dict[int, str] = field(default_factory=dict)
    encoding: str = 'UTF-8'     # SET value; None: directive is absent (default encoding)
    newline: str = '\n'
    aff_bom: bool = False
    dic_bom: bool = False
    comments: bool = False
    blank: bool = False
    indent: bool = False
    trailing: bool = False
    tabs: bool = False
    af: bool = False
    am: bool = False
    outdated: bool = False
    no_count: bool = False
    shuffle: bool = False
    bare_cond: bool = False     # no column for the condition of affix rules that have none
    pat_repl: bool = False      # CHECKCOMPOUNDPATTERN with the third column
    lead: int = 0               # lines before everything else in the .aff file
    seed: int = 0


def make_flagmap(rng: random.Random, flags, fmt, *, rule_flags=(), af=False):
    flags = list(flags)
    if fmt == 'short':
        pool = list(SHORT_POOL)
        rng.shuffle(pool)
    elif fmt == 'UTF-8':
        pool = list(UTF_POOL)
        rng.shuffle(pool)
    elif fmt == 'long':
        pool = set()
        while len(pool) < 90:
            a, b = rng.choice(LONG_CHARS), rng.choice(LONG_CHARS)
            if (a + b).isdigit():
                continue
            pool.add(a + b)
        pool = sorted(pool)
        rng.shuffle(pool)
    else:
        pool = [str(x) for x in NUM_POOL]
        rng.shuffle(pool)
    assert len(pool) >= len(flags), (fmt, len(flags))
    return {f: pool[i] for i, f in enumerate(flags)}


def default_rep(spec: Spec, rng: random.Random, fmt='short', **kw) -> Rep:
    return Rep(fmt=fmt, flagmap=make_flagmap(rng, spec.all_flags(), fmt), seed=rng.randrange(1 << 30), **kw)


def cond_text(cond):
    out = ''
    for k, c in cond:
        out += {'.': '.', 'c': c, '[': f'[{c}]', '^': f'[^{c}]'}[k]
    return out or '.'


class Writer:
    def __init__(self, spec: Spec, rep: Rep):
        self.spec, self.rep = spec, rep
        self.rng = random.Random(rep.seed)
        self.af: Dict[Tuple[int, ...], int] = {}
        self.am: Dict[Tuple[Tuple[str, str], ...], int] = {}

    def fl(self, f):
        return self.rep.flagmap[f]

    def flagset(self, flags):
        if not flags:
            return ''
        if self.rep.af:
            key = tuple(flags)
            return str(self.af.setdefault(key, len(self.af) + 1))
        return self.raw_flagset(flags)

    def raw_flagset(self, flags):
        toks = [self.fl(f) for f in flags]
        return ','.join(toks) if self.rep.fmt == 'num' else ''.join(toks)

    def sep(self):
        if self.rep.tabs:
            return self.rng.choice([' ', '\t', '   ', ' \t'])
        return ' '

    def line(self, *parts):
        return self.sep().join(parts) if not self.rep.tabs else ''.join(
            p + (self.sep() if i < len(parts) - 1 else '') for i, p in enumerate(parts))

    def no_cond(self, rule):
        return self.rep.bare_cond and not self.rep.trailing and cond_text(rule.cond) == '.'

    def aff_lines(self):
        s, r, rng = self.spec, self.rep, self.rng
        # body first (it registers the aliases)
        blocks = []
        for k, v in s.strs.items():
            if k not in ('IGNORE', 'LANG'):
                blocks.append([self.line(k, v)])
        for k, v in s.ints.items():
            blocks.append([self.line(k, str(v))])
        for k in s.bools:
            blocks.append([k])
        for k, f in s.flags.items():
            name = {'NEEDAFFIX': 'PSEUDOROOT', 'COMPOUNDEND': 'COMPOUNDLAST'}.get(k, k) if r.outdated else k
            blocks.append([self.line(name, self.fl(f))])
        for a in s.affixes:
            name = 'PFX' if a.kind == 'P' else 'SFX'
            fl = self.fl(a.flag)
            b = [self.line(name, fl, 'Y' if a.cross else 'N', str(len(a.rules)))]
            for x in a.rules:
                add = (x.add or '0') + ('/' + self.flagset(x.flags) if x.flags else '')
                cond = cond_text(x.cond)
                b.append(self.line(name, fl, x.strip or '0', add, *([] if self.no_cond(x) else [cond])))
            blocks.append(b)

        def table(name, rows):
            blocks.append([self.line(name, str(len(rows)))] + [self.line(name, *row) for row in rows])

        if s.rep:
            table('REP', s.rep)
        if s.map:
            table('MAP', [[''.join(o if len(o) == 1 else f'({o})' for o in m)] for m in s.map])
        if s.brk is not None:
            table('BREAK', [[b] for b in s.brk])
        if s.crules:
            rows = []
            for rule in s.crules:
                if r.fmt in ('long', 'num'):
                    rows.append([''.join(f'({self.fl(f)}){q}' for f, q in rule)])
                else:
                    rows.append([''.join(f'{self.fl(f)}{q}' for f, q in rule)])
            table('COMPOUNDRULE', rows)
        if s.iconv is not None:
            table('ICONV', s.iconv)
        if s.oconv is not None:
            table('OCONV', s.oconv)
        if s.pats:
            rows = []
            for l, lf, rt, rf in s.pats:
                rows.append([l + ('/' + self.fl(lf) if lf is not None else ''),
                             rt + ('/' + self.fl(rf) if rf is not None else '')] + (['xy'] if r.pat_repl and len(rows) % 2 else []))
            table('CHECKCOMPOUNDPATTERN', rows)
        if s.phone is not None:
            table('PHONE', s.phone)
        if r.shuffle:
            rng.shuffle(blocks)
        self.dic_cache = self.dic_lines()
        head = []
        if r.encoding:
            head.append(['SET ' + r.encoding])
        if r.fmt != 'short':
            head.append(['FLAG ' + r.fmt])
            if r.shuffle and r.fmt != 'UTF-8' and rng.random() < .5:
                head.reverse()
        comments = COMMENTS
        if r.comments:
            # also in the encoding of the file, before it is declared
            letters = ''.join(sorted(c for c in s.chars() if c > '~' and not c.isspace()))
            if letters:
                comments = COMMENTS + ['# ' + letters, letters + ' x', 'NAME ' + letters] * 3
        if 'LANG' in s.strs:
            head.append([self.line('LANG', s.strs['LANG'])])
        if 'IGNORE' in s.strs:
            head.append([self.line('IGNORE', s.strs['IGNORE'])])
        if r.af and self.af:
            head.append([self.line('AF', str(len(self.af)))] + [self.line('AF', self.raw_flagset(f)) for f in self.af])
        if r.am and self.am:
            head.append([self.line('AM', str(len(self.am)))] +
                        [self.line('AM', *[f'{t}:{v}' for t, v in d]) for d in self.am])
        out = [rng.choice(comments + ['']) for _ in range(r.lead)]
        for b in head + blocks:
            if r.comments and rng.random() < 0.4:
                out.append(rng.choice(comments))
            if r.blank and rng.random() < 0.4:
                out.append(rng.choice(['', '   ', '\t']))
            for i, ln in enumerate(b):
                if r.trailing and ln.split()[0] in ('SFX', 'PFX', 'REP', 'BREAK', 'MAP', 'ICONV', 'OCONV',
                                                    'CHECKCOMPOUNDPATTERN') and rng.random() < .5:
                    if ln.split()[0] == 'CHECKCOMPOUNDPATTERN' and i > 0:
                        pass    # third column would be the replacement
                    else:
                        ln += rng.choice([' # some comment', '\t# x', ' po:noun'])
                if r.indent and rng.random() < .3:
                    ln = rng.choice([' ', '\t', '  ']) + ln
                if r.trailing and rng.random() < .3:
                    ln += rng.choice([' ', '\t', '  '])
                out.append(ln)
                if r.blank and rng.random() < .1:
                    out.append('')
        return out

    def dic_lines(self):
        s, r, rng = self.spec, self.rep, self.rng
        lines = []
        for w in s.words:
            stem = w.stem if w.stem.startswith('/') else w.stem.replace('/', '\\/')
            ln = stem
            if w.flags:
                ln += '/' + self.flagset(w.flags)
            if w.data:
                if r.am and rng.random() < .7:
                    # tags as they are, then one or several aliases
                    n = len(w.data)
                    a = rng.randint(1, n - 1) if n > 1 and rng.random() < .2 else 0
                    b = rng.randint(a, n) if rng.random() < .4 else n
                    texts = [f'{t}:{v}' for t, v in w.data[:a]]
                    for key in (tuple(w.data[a:b]), tuple(w.data[b:])):
                        if key:
                            texts.append(str(self.am.setdefault(key, len(self.am) + 1)))
                    ln += '\t' + ' '.join(texts)
                elif r.comments and not r.am and rng.random() < .15:
                    # a description in the old manner, without the name of a tag
                    ln += '\t' + rng.choice(['noun', '[noun]', 'n 1 sg', '(a)']) + ' ' + ' '.join(f'{t}:{v}' for t, v in w.data)
                else:
                    ln += rng.choice(['\t', ' ']) + ' '.join(f'{t}:{v}' for t, v in w.data)
            if r.indent and rng.random() < .1:
                ln = ' ' + ln
            if r.trailing and rng.random() < .2:
                ln += ' '
            lines.append(ln)
        if r.blank:
            out = []
            for ln in lines:
                if rng.random() < .2:
                    out.append('')
                out.append(ln)
            lines = out
        if not r.no_count:
            n = str(len(s.words))
            if r.trailing:
                # the number is a hint, and what follows it is not read
                n = rng.choice([n, n, '0', str(len(s.words) * 7), '0' + n]) + rng.choice([' ', ' ', '\t', ' words', '\t# 1', ' 12'])
            lines.insert(0, n)
        return lines

    def render(self):
        """(aff bytes, dic bytes)"""
        aff = self.rep.newline.join(self.aff_lines()) + self.rep.newline
        dic = self.rep.newline.join(self.dic_cache) + self.rep.newline
        enc = self.rep.encoding or ('UTF-8' if self.rep.fmt == 'UTF-8' else 'Windows-1252')
        a, d = aff.encode(enc, 'surrogateescape'), dic.encode(enc, 'surrogateescape')
        if self.rep.aff_bom:
            a = b'\xef\xbb\xbf' + a
        if self.rep.dic_bom:
            d = b'\xef\xbb\xbf' + d
        return a, d


def write(spec: Spec, rep: Rep, base: str):
    a, d = Writer(spec, rep).render()
    with open(base + '.aff', 'wb') as f:
        f.write(a)
    with open(base + '.dic', 'wb') as f:
        f.write(d)


def write_zip(spec: Spec, rep: Rep, path: str, prefix='', extra=(), compress=True, dic_first=False, name='dict', dic_name=None):
    a, d = Writer(spec, rep).render()
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED) as z:
        for n, content in extra:
            z.writestr(n, content)
        items = [(prefix + name + '.aff', a), (prefix + (dic_name or name) + '.dic', d)]
        for n, b in (reversed(items) if dic_first else items):
            z.writestr(n, b)


# ---------------------------------------------------------------------------------------------
# JSON (for replay files)

def to_json(spec: Spec) -> Any:
    return {
        'strs': spec.strs, 'ints': spec.ints, 'bools': spec.bools, 'flags': spec.flags,
        'affixes': [[a.kind, a.flag, a.cross, [[r.strip, r.add, r.cond, list(r.flags)] for r in a.rules]] for a in spec.affixes],
        'rep': spec.rep, 'map': spec.map, 'brk': spec.brk, 'crules': spec.crules, 'iconv': spec.iconv,
        'oconv': spec.oconv, 'pats': spec.pats, 'phone': spec.phone,
        'words': [[w.stem, list(w.flags), w.data] for w in spec.words]}


def from_json(j: Any) -> Spec:
    t2 = lambda rows: None if rows is None else [tuple(x) for x in rows]
    return Spec(strs=dict(j['strs']), ints=dict(j['ints']), bools=list(j['bools']), flags=dict(j['flags']),
                affixes=[Affix(k, f, c, [Rule(s, a, t2(cd), tuple(fl)) for s, a, cd, fl in rs]) for k, f, c, rs in j['affixes']],
                rep=t2(j['rep']), map=[list(m) for m in j['map']], brk=j['brk'],
                crules=[t2(r) for r in j['crules']], iconv=t2(j['iconv']), oconv=t2(j['oconv']), pats=t2(j['pats']),
                phone=t2(j['phone']), words=[Entry(s, tuple(f), t2(d)) for s, f, d in j['words']])


def copy(spec: Spec) -> Spec:
    return from_json(json.loads(json.dumps(to_json(spec), ensure_ascii=False)))
