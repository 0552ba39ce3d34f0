"""
Reference model of word acceptance.

Works on abstract ``Spec``s; never imports spylls. Where spylls analyses (cuts affixes off the checked word with
a trie and regular expressions, splits compounds recursively), the model generates: all affixed forms of all
entries are produced forwards once, and looked up in a table.
"""
from collections import defaultdict, namedtuple
from typing import Dict, List, Optional, Tuple

from .spec import Spec, Entry

NO, INIT, ALL, HUH, HUHINIT = 'no', 'init', 'all', 'huh', 'huhinit'

AR = namedtuple('AR', 'kind flag cross strip add cond flags')   # one affix rule
# One derivation of a text from an entry; p/s are the affixes attached to the stem, p2/s2 the outer ones
Ana = namedtuple('Ana', 'entry stem p2 p s s2')
Ent = namedtuple('Ent', 'stem flags captype idx')


def cond_ok_end(cond, text):
    n = len(cond)
    if len(text) < n:
        return False
    return all(tok_ok(t, text[len(text) - n + i]) for i, t in enumerate(cond))


def cond_ok_start(cond, text):
    if len(text) < len(cond):
        return False
    return all(tok_ok(t, text[i]) for i, t in enumerate(cond))


def tok_ok(tok, ch):
    k, c = tok
    if k == '.':
        return True
    if k == 'c':
        return c == ch
    return (ch in c) == (k == '[')


class TooExpensive(Exception):
    """The number of splits to consider exceeds the domain of the checks"""


class Casing:
    """Documented casing rules; kind: plain, german, turkic"""
    def __init__(self, kind):
        self.kind = kind

    def captype(self, word):
        if self.kind == 'german' and 'ß' in word and self._captype(word.replace('ß', '')) == ALL:
            return ALL
        return self._captype(word)

    @staticmethod
    def _captype(word):
        kinds = []
        for c in word:
            if c.islower():
                kinds.append('l')
            elif c.isupper():
                kinds.append('u')
            elif c.istitle():
                kinds.append('t')
            else:
                kinds.append('-')
        cased = [k for k in kinds if k != '-']
        if cased and all(k == 'l' for k in cased):
            return NO
        if cased and all(k == 'u' for k in cased):
            return ALL
        if kinds and kinds[0] == 'u':
            rest = [k for k in kinds[1:] if k != '-']
            return INIT if rest and all(k == 'l' for k in rest) else HUHINIT
        return HUH

    def lower(self, word) -> List[str]:
        orig = word
        if self.kind == 'turkic':
            word = ''.join({'İ': 'i', 'I': 'ı'}.get(c, c) for c in word)
        if not word or word[0] == 'İ':
            return []
        low = word.lower().replace('i̇', 'i')
        if self.kind == 'german' and 'SS' in orig:
            return self._sharp(low)
        return [low]

    @staticmethod
    def _sharp(low):
        """All ways to write ss as ß (the all-ss reading last)"""
        out = []

        def rec(prefix, rest):
            i = rest.find('ss')
            while i != -1:
                out.append(prefix + rest[:i] + 'ß' + rest[i + 2:])
                rec(prefix + rest[:i] + 'ß', rest[i + 2:])
                prefix, rest = prefix + rest[:i + 2], rest[i + 2:]
                i = rest.find('ss')
        rec('', low)
        return out + [low]

    def upper(self, word):
        if self.kind == 'turkic':
            word = ''.join({'i': 'İ', 'ı': 'I'}.get(c, c) for c in word)
        return word.upper()

    def capitalize(self, word):
        if len(word) == 1:
            return list(self.upper(word))
        return [self.upper(word[0]) + low for low in self.lower(word[1:])]

    def lowerfirst(self, word):
        return [x + word[1:] for x in self.lower(word[0])]

    def variants(self, word):
        ct = self.captype(word)
        res = [word]
        if ct in (INIT, ALL):
            res += self.lower(word)
        if ct == ALL:
            res += self.capitalize(word)
        if ct == HUHINIT:
            res += self.lowerfirst(word)
        return ct, res

    def corrections(self, word):
        ct = self.captype(word)
        res = [word]
        if ct == HUHINIT:
            res += self.lowerfirst(word)
        if ct != NO:
            res += self.lower(word)
        if ct in (ALL, HUHINIT):
            res += self.capitalize(word)
        return ct, res

    def coerce(self, text, ct):
        if ct in (INIT, HUHINIT):
            return self.upper(text[:1]) + text[1:]
        if ct == ALL:
            return self.upper(text)
        return text


class Conv:
    """ICONV/OCONV: at each place the longest matching entry"""
    def __init__(self, pairs):
        self.rows = []
        for a, b in pairs:
            self.rows.append((a.replace('_', ''), a.startswith('_'), a.endswith('_'), b.replace('_', ' ')))

    def __call__(self, word):
        out, i = '', 0
        while i < len(word):
            best = None
            # ties (same text, different anchors) are resolved by declaration order
            for pat, st, en, to in self.rows:
                if word[i:i + len(pat)] != pat:
                    continue
                if st and i != 0:
                    continue
                if en and i + len(pat) != len(word):
                    continue
                if best is None or len(pat) > len(best[0]):
                    best = (pat, to)
            if best:
                out += best[1]
                i += len(best[0])
            else:
                out += word[i]
                i += 1
        return out


def rep_table(spec: Spec, stems: List[str]):
    """REP of .aff + what ph: tags of the entries add to it; and alternative spellings per entry"""
    rep = list(spec.rep)
    alts = []
    for w, stem in zip(spec.words, stems):
        mine = []
        for tag, val in w.data:
            if tag != 'ph' or not val:
                continue
            if val.endswith('*'):
                rep.append((val[:-2], stem[:-1]))
            elif '->' in val:
                a, _, b = val.partition('->')
                rep.append((a, b))
            else:
                rep.append((val, stem))
                mine.append(val)
        alts.append(mine)
    return rep, alts


def rep_matches(pattern, word):
    """Places (start, end) where a REP pattern applies"""
    st, en = pattern.startswith('^'), pattern.endswith('$')
    body = pattern[1 if st else 0:len(pattern) - (1 if en else 0)]
    i = 0
    while i <= len(word) - len(body):
        if word[i:i + len(body)] == body and (not st or i == 0) and (not en or i + len(body) == len(word)):
            yield i, i + len(body)
            i += max(1, len(body))
        else:
            i += 1


def replacements(word, rep):
    """REP replacements: yields str (one word) or list (several words)"""
    if len(word) < 2:
        return
    for pat, to in rep:
        for a, b in rep_matches(pat, word):
            text = word[:a] + to.replace('_', ' ') + word[b:]
            yield text
            if ' ' in text:
                yield text.split(' ', 2)


class Model:
    def __init__(self, spec: Spec):
        self.spec = spec
        kind = 'german' if 'CHECKSHARPS' in spec.bools else \
            'turkic' if spec.strs.get('LANG') in ('tr', 'tr_TR', 'az', 'crh') else 'plain'
        self.casing = Casing(kind)
        self.ignore = set(spec.strs.get('IGNORE', ''))
        self.F = {k: spec.flags.get(k) for k in (
            'NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
            'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE')}
        self.sharps = 'CHECKSHARPS' in spec.bools
        self.cmin = max(1, spec.ints.get('COMPOUNDMIN', 3))
        self.cmax = spec.ints.get('COMPOUNDWORDMAX')
        self.iconv = Conv(spec.iconv) if spec.iconv is not None else None
        self.oconv = Conv(spec.oconv) if spec.oconv is not None else None
        self.brk = ['-', '^-', '-$'] if spec.brk is None else spec.brk

        self.prefixes: List[AR] = []
        self.suffixes: List[AR] = []
        # several tables with the same flag: the last one replaces the others
        last = {}
        for a in spec.affixes:
            last[(a.kind, a.flag)] = a
        for a in spec.affixes:
            if last[(a.kind, a.flag)] is not a:
                continue
            for r in a.rules:
                # the condition "." means at least one letter
                cond = tuple(tuple(t) for t in r.cond) or (('.', ''),)
                ar = AR(a.kind, a.flag, a.cross, r.strip, self.strip_ignored(r.add), cond, frozenset(r.flags))
                (self.prefixes if a.kind == 'P' else self.suffixes).append(ar)

        self.prefix_flags = {f for p in self.prefixes for f in p.flags}

        self.entries: List[Ent] = []
        self.by_stem: Dict[str, List[Ent]] = defaultdict(list)
        self.by_lower: Dict[str, List[Ent]] = defaultdict(list)
        for i, w in enumerate(spec.words):
            stem = self.strip_ignored(w.stem)
            ct = self.casing.captype(stem)
            e = Ent(stem, frozenset(w.flags), ct, i)
            self.entries.append(e)
            self.by_stem[stem].append(e)
            for low in ([stem] if ct == NO else self.casing.lower(stem)):
                self.by_lower[low].append(e)
        self.rep, self.alts = rep_table(spec, [e.stem for e in self.entries])

        self.table: Dict[str, List[Ana]] = defaultdict(list)
        self.lowtable: Dict[str, List[Ana]] = defaultdict(list)
        for e in self.entries:
            for text, ana in self.forms(e, e.stem):
                self.table[text].append(ana)
        for low, ents in list(self.by_lower.items()):
            for e in ents:
                for text, ana in self.forms(e, low):
                    self.lowtable[text].append(ana)
        self._good_cache = {}
        self._part_cache = {}
        self._captable = None
        # how many letters prefixes without letters of their own can strip
        self.emptying = 2 * max([len(p.strip) for p in self.prefixes if not p.add], default=0)
        self.spent, self.cap = 0, None

    def limit(self, cap):
        """Allow `cap` more steps of splitting"""
        self.spent, self.cap = 0, cap

    def step(self):
        self.spent += 1
        if self.cap is not None and self.spent > self.cap:
            raise TooExpensive()

    def strip_ignored(self, text):
        return ''.join(c for c in text if c not in self.ignore) if self.ignore else text

    # ------------------------------------------------------------------ affixes, forwards

    def forms(self, e: Ent, stem: str):
        """All (text, analysis) derivable from entry e taken with the given spelling of its stem,
        respecting strip, condition, flags, cross product, NEEDAFFIX and CIRCUMFIX"""
        F = self.F
        na, cf = F['NEEDAFFIX'], F['CIRCUMFIX']
        suf: List[Tuple[Optional[AR], Optional[AR], str]] = [(None, None, stem)]
        for s in self.suffixes:
            if s.flag not in e.flags and s.flag not in self.prefix_flags:
                continue
            t = apply_suffix(s, stem)
            if t is None:
                continue
            suf.append((s, None, t))
            for s2 in self.suffixes:
                if s2.flag in s.flags:
                    t2 = apply_suffix(s2, t)
                    if t2 is not None:
                        suf.append((s, s2, t2))
        for s, s2, t in suf:
            if s is None or s.flag in e.flags:
                if self.restr_ok(e, None, None, s, s2):
                    yield t, Ana(e, stem, None, None, s, s2)
            for p in self.prefixes:
                if s is not None and not (p.cross and s.cross and (s2 is None or s2.cross)):
                    continue
                if not (p.flag in e.flags or (s is not None and p.flag in s.flags)):
                    continue
                if s is not None and not (s.flag in e.flags or s.flag in p.flags):
                    continue
                u = apply_prefix(p, t)
                if u is None:
                    continue
                if self.restr_ok(e, None, p, s, s2):
                    yield u, Ana(e, stem, None, p, s, s2)
                if 'COMPLEXPREFIXES' in self.spec.bools:
                    for p2 in self.prefixes:
                        if p2.flag in p.flags:
                            u2 = apply_prefix(p2, u)
                            if u2 is not None and self.restr_ok(e, p2, p, s, s2):
                                yield u2, Ana(e, stem, p2, p, s, s2)

    def restr_ok(self, e, p2, p, s, s2):
        na, cf = self.F['NEEDAFFIX'], self.F['CIRCUMFIX']
        affs = [a for a in (p2, p, s, s2) if a is not None]
        if na is not None:
            if not affs and na in e.flags:
                return False
            if affs and all(na in a.flags for a in affs):
                return False
        if cf is not None:
            if (s is not None and cf in s.flags) != (p is not None and cf in p.flags):
                return False
        return True

    @staticmethod
    def ana_flags(a: Ana):
        fl = a.entry.flags
        if a.p is not None:
            fl = fl | a.p.flags
        if a.s is not None:
            fl = fl | a.s.flags
        return fl

    # ------------------------------------------------------------------ single words

    def homonyms(self, stem):
        return self.by_stem.get(stem, [])

    def any_forbidden(self, stem):
        f = self.F['FORBIDDENWORD']
        return f is not None and any(f in e.flags for e in self.homonyms(stem))

    def all_forbidden(self, stem):
        f = self.F['FORBIDDENWORD']
        h = self.homonyms(stem)
        return f is not None and bool(h) and all(f in e.flags for e in h)

    def has_flag(self, stem, name):
        f = self.F[name]
        return f is not None and any(f in e.flags for e in self.homonyms(stem))

    def common_ok(self, a: Ana, captype, allow_nosuggest, with_forbidden=False):
        F = self.F
        e = a.entry
        if not with_forbidden and F['FORBIDDENWORD'] is not None and F['FORBIDDENWORD'] in e.flags:
            return False
        if not allow_nosuggest and F['NOSUGGEST'] is not None and F['NOSUGGEST'] in e.flags:
            return False
        if F['KEEPCASE'] is not None and F['KEEPCASE'] in e.flags and captype != e.captype:
            if not (self.sharps and 'ß' in e.stem):
                return False
        return True

    def affix_anas(self, text, captype, allow_nosuggest=True, with_forbidden=False):
        """Analyses of exactly this text as a standalone word"""
        if not with_forbidden and self.all_forbidden(text):
            return
        oic = self.F['ONLYINCOMPOUND']
        found = set()

        def ok(a):
            if not with_forbidden and (a.p is not None or a.s is not None) and self.any_forbidden(a.stem):
                return False
            return self.common_ok(a, captype, allow_nosuggest, with_forbidden) and \
                (oic is None or oic not in self.ana_flags(a))
        for a in self.table.get(text, ()):
            if ok(a):
                found.add((a.stem, a.p2, a.p, a.s, a.s2))
                yield a
        if captype == ALL and self.casing.captype(text) == NO:
            for a in self.lowtable.get(text, ()):
                if (a.stem, a.p2, a.p, a.s, a.s2) not in found and ok(a):
                    yield a

    # ------------------------------------------------------------------ compounds

    def part_anas(self, text, pos, captype, allow_nosuggest):
        """Analyses of the text as a compound part; pos: B, M, E"""
        key = (text, pos, captype, allow_nosuggest)
        res = self._part_cache.get(key)
        if res is None:
            res = self._part_cache[key] = list(self._part_anas(*key))
        return res

    def _part_anas(self, text, pos, captype, allow_nosuggest):
        F = self.F
        permit, forbid = F['COMPOUNDPERMITFLAG'], F['COMPOUNDFORBIDFLAG']
        if self.any_forbidden(text):
            return
        cands = list(self.table.get(text, ()))
        if pos == 'B' and F['FORCEUCASE'] is not None and captype == INIT:
            # the compound is written with a capital, its first word may be lowercase in the dictionary
            seen = set(cands)
            for a in self.lower_first_part(text):
                if a not in seen:
                    cands.append(a)
        for a in cands:
            pre = [x for x in (a.p2, a.p) if x is not None]
            suf = [x for x in (a.s, a.s2) if x is not None]
            if forbid is not None and any(forbid in x.flags for x in pre + suf):
                continue
            if pos != 'E' and suf and (permit is None or not all(permit in x.flags for x in suf)):
                continue
            if pos != 'B' and pre and (permit is None or not all(permit in x.flags for x in pre)):
                continue
            if (pre or suf) and self.any_forbidden(a.stem):
                continue
            if not self.common_ok(a, captype, allow_nosuggest):
                continue
            fl = self.ana_flags(a)
            want = {'B': 'COMPOUNDBEGIN', 'M': 'COMPOUNDMIDDLE', 'E': 'COMPOUNDEND'}[pos]
            if any(F[k] is not None and F[k] in fl for k in ('COMPOUNDFLAG', want)):
                yield a

    def lower_first_part(self, text):
        """Derivations of `text` from lowercase entries with the stem written with initial capital; the letter with the capital
        is not the first one of the stem if a prefix strips letters and adds none"""
        if self._captable is None:
            self._captable = defaultdict(list)
            for e in self.entries:
                for k in range(min(len(e.stem), self.emptying + 1)):
                    cap = e.stem[:k] + e.stem[k:k + 1].upper() + e.stem[k + 1:]
                    if cap.lower() == e.stem:
                        for t, a in self.forms(e, cap):
                            if not k or t.startswith(cap[k]):
                                self._captable[t].append(a)
        return self._captable.get(text, [])

    def flag_compounds(self, text, captype, allow_nosuggest):
        """All splits [(part text, analysis), ...] by compound flags"""
        if self.F['COMPOUNDBEGIN'] is None and self.F['COMPOUNDFLAG'] is None:
            return
        n = len(text)

        def rec(start, parts):
            self.step()
            if parts:
                for a in self.part_anas(text[start:], 'E', captype, allow_nosuggest):
                    if n - start >= self.cmin:
                        yield parts + [(text[start:], a)]
            if self.cmax and len(parts) + 2 > self.cmax:
                return
            pos = 'M' if parts else 'B'
            for end in range(start + self.cmin, n - self.cmin + 1):
                piece = text[start:end]
                for a in self.part_anas(piece, pos, captype, allow_nosuggest):
                    yield from rec(end, parts + [(piece, a)])
                if 'SIMPLIFIEDTRIPLE' in self.spec.bools and piece[-1] == text[end]:
                    for a in self.part_anas(piece + piece[-1], pos, captype, allow_nosuggest):
                        yield from rec(end, parts + [(piece, a)])
        yield from rec(0, [])

    def rule_compounds(self, text, allow_nosuggest):
        """All splits into entries whose flags match a compound rule"""
        if not self.spec.crules:
            return
        fb, ns = self.F['FORBIDDENWORD'], self.F['NOSUGGEST']
        nfas = [RuleNFA(r) for r in self.spec.crules]
        n = len(text)

        def rec(start, parts, states):
            self.step()
            for end in range(start + self.cmin, n + 1):
                if end != n and n - end < self.cmin:
                    continue
                if end == n and not parts:
                    continue
                if self.cmax and len(parts) + (1 if end == n else 2) > self.cmax:
                    continue
                piece = text[start:end]
                for e in self.homonyms(piece):
                    if fb is not None and fb in e.flags:
                        continue
                    if not allow_nosuggest and ns is not None and ns in e.flags:
                        continue
                    nxt = [nfa.step(st, e.flags) for nfa, st in zip(nfas, states)]
                    if end == n:
                        if any(nfa.final(st) for nfa, st in zip(nfas, nxt)):
                            yield parts + [(piece, None)]
                    elif any(nxt):
                        yield from rec(end, parts + [(piece, None)], nxt)
        yield from rec(0, [], [nfa.start() for nfa in nfas])

    def compound_splits(self, text, captype, allow_nosuggest=True):
        fb = self.F['FORBIDDENWORD']
        if fb is not None and any(fb in self.ana_flags(a) for a in
                                  self.affix_anas(text, captype, with_forbidden=True)):
            return
        for parts in self.flag_compounds(text, captype, allow_nosuggest):
            if not self.bad_compound(parts, captype):
                yield parts
        for parts in self.rule_compounds(text, allow_nosuggest):
            if not self.bad_compound(parts, captype):
                yield parts

    def bad_compound(self, parts, captype):
        b = self.spec.bools
        if self.F['FORCEUCASE'] is not None and captype not in (ALL, INIT) and self.has_flag(parts[-1][0], 'FORCEUCASE'):
            return True
        for i in range(len(parts) - 1):
            (left, la), (right, ra) = parts[i], parts[i + 1]
            if self.has_flag(left, 'COMPOUNDFORBIDFLAG'):
                return True
            if any(True for _ in self.affix_anas(left + ' ' + right, captype)):
                return True
            if 'CHECKCOMPOUNDREP' in b:
                for cand in replacements(left + right, self.rep):
                    if isinstance(cand, str) and any(True for _ in self.affix_anas(cand, captype)):
                        return True
            if 'CHECKCOMPOUNDTRIPLE' in b:
                if same3(left[-2:] + right[:1]) or same3(left[-1:] + right[:2]):
                    return True
            if 'CHECKCOMPOUNDCASE' in b:
                l, r = left[-1], right[0]
                if l != '-' and r != '-' and (l == l.upper() or r == r.upper()):
                    return True
            for ls, lf, rs, rf in self.spec.pats:
                if self.pat_match(left, la, right, ra, ls, lf, rs, rf):
                    return True
            if 'CHECKCOMPOUNDDUP' in b and i == len(parts) - 2 and left == right:
                return True
        return False

    def pat_match(self, left, la, right, ra, ls, lf, rs, rf):
        def side(text, a, pat, flag, method):
            stem = a.stem if a is not None else text
            affixed = a is not None and (a.p is not None or a.s is not None)
            if pat == '0':
                if not affixed:
                    return False
            elif not method(stem, pat):
                return False
            if flag is not None:
                return a is not None and flag in self.ana_flags(a)
            return True
        return side(left, la, ls, lf, str.endswith) and side(right, ra, rs, rf, str.startswith)

    # ------------------------------------------------------------------ whole words

    def good_forms(self, word, *, cap=True, allow_nosuggest=True, affix=True, compound=True):
        """Yields analyses: Ana, or list of (text, Ana|None) for compounds"""
        if cap:
            ct, variants = self.casing.variants(word)
        else:
            ct, variants = self.casing.captype(word), [word]
        kc = self.F['KEEPCASE']
        for v in variants:
            if affix:
                for a in self.affix_anas(v, ct, allow_nosuggest):
                    if self.sharps and kc is not None and 'ß' in a.entry.stem and kc in self.ana_flags(a) and \
                            ct == ALL and 'ß' in word:
                        continue
                    yield a
            if compound:
                yield from self.compound_splits(v, ct, allow_nosuggest)

    def good(self, word, *, cap=True, allow_nosuggest=True, affix=True, compound=True):
        key = (word, cap, allow_nosuggest, affix, compound)
        res = self._good_cache.get(key)
        if res is None:
            res = any(True for _ in self.good_forms(word, cap=cap, allow_nosuggest=allow_nosuggest,
                                                    affix=affix, compound=compound))
            if len(self._good_cache) > 200000:
                self._good_cache.clear()
            self._good_cache[key] = res
        return res

    def prepare(self, word):
        if self.iconv:
            word = self.iconv(word)
        return self.strip_ignored(word)

    def lookup(self, word, allow_nosuggest=True, cap=True):
        if self.all_forbidden(word):
            return False
        word = self.prepare(word)
        if is_number(word):
            return True
        return self.breakable(word, allow_nosuggest, cap=cap)

    def breakable(self, word, allow_nosuggest=True, depth=0, cap=True):
        """Some choice of break points leaves only good parts. Independent of the order of breaking."""
        memo = {}

        def part_ok(t):
            return not t or self.good(t, allow_nosuggest=allow_nosuggest, cap=cap)

        def rec(rest, depth):
            if (rest, depth) in memo:
                return memo[rest, depth]
            res = part_ok(rest)
            if not res and depth < 10:
                for a, b in self.break_points(rest):
                    if part_ok(rest[:a]) and rec(rest[b:], depth + 1):
                        res = True
                        break
            memo[rest, depth] = res
            return res
        return rec(word, 0)

    def break_points(self, text):
        for pat in self.brk:
            st, en = pat.startswith('^'), pat.endswith('$')
            body = pat[1 if st else 0:len(pat) - (1 if en else 0)]
            i = 0
            while body and i <= len(text) - len(body):
                j = i + len(body)
                ok = text[i:j] == body
                if ok:
                    if st or en:
                        ok = (not st or i == 0) and (not en or j == len(text))
                    else:
                        ok = i > 0 and j < len(text)
                if ok:
                    yield i, j
                    i = j
                else:
                    i += 1


def apply_suffix(s: AR, text):
    if not text.endswith(s.strip) or not cond_ok_end(s.cond, text):
        return None
    return text[:len(text) - len(s.strip)] + s.add


def apply_prefix(p: AR, text):
    if not text.startswith(p.strip) or not cond_ok_start(p.cond, text):
        return None
    return p.add + text[len(p.strip):]


def same3(s):
    return len(s) == 3 and s[0] == s[1] == s[2] or len(s) == 2 and s[0] == s[1]


def is_number(word):
    parts = word.split('.')
    return len(parts) in (1, 2) and all(p and all(c.isdecimal() for c in p) for p in parts)


class RuleNFA:
    """COMPOUNDRULE as a position automaton; a word offers any of its flags"""
    def __init__(self, rule):
        self.toks = rule

    def close(self, states):
        out = set()
        todo = list(states)
        while todo:
            s = todo.pop()
            if s in out:
                continue
            out.add(s)
            if s < len(self.toks) and self.toks[s][1] in ('*', '?'):
                todo.append(s + 1)
        return out

    def start(self):
        return self.close({0})

    def step(self, states, flags):
        out = set()
        for s in states:
            if s < len(self.toks) and self.toks[s][0] in flags:
                out.add(s if self.toks[s][1] == '*' else s + 1)
                if self.toks[s][1] == '*':
                    out.add(s + 1)
        return self.close(out)

    def final(self, states):
        return len(self.toks) in states
