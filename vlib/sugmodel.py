"""
Reference model of suggestions, on top of ``model.Model``. Never imports spylls.

Every stage is exposed separately, because the monitors judge each stage given what spylls really produced
before it (e.g. n-gram guesses are judged against the corrections actually returned).
"""
from collections import namedtuple

from .model import Model, NO, INIT, ALL, HUH, HUHINIT, replacements

DEFAULT_KEY = 'qwertyuiop|asdfghjkl|zxcvbnm'
SIMPLE_LIMIT = 15
PHONET_LIMIT = 2
DECISIVE = ('spaceword', 'uppercase', 'replchars')

Cand = namedtuple('Cand', 'kind words dash')      # words: [text] for single-word candidates; dash: also "w1-w2"
Sug = namedtuple('Sug', 'text kind raw variant compound')


# ------------------------------------------------------------------------------ single mistakes

def k_map(word, table):
    if len(word) < 2:
        return

    def rec(w, start):
        if start >= len(w):
            return
        for opts in table:
            for o in opts:
                at = w.find(o, start)
                if at < 0:
                    continue
                for other in opts:
                    if other != o:
                        r = w[:at] + other + w[at + len(o):]
                        yield r
                        yield from rec(r, at + len(other))
    yield from rec(word, 0)


def swap(chars, i, j):
    chars = list(chars)
    chars[i], chars[j] = chars[j], chars[i]
    return ''.join(chars)


def k_swap(w):
    n = len(w)
    for i in range(n - 1):
        yield swap(w, i, i + 1)
    if n == 4:
        yield swap(swap(w, 0, 1), 2, 3)
    if n == 5:
        yield swap(swap(w, 0, 1), 3, 4)
        yield swap(swap(w, 1, 2), 3, 4)


def k_longswap(w):
    for i in range(len(w)):
        for d in (2, 3):
            if i + d < len(w):
                yield swap(w, i, i + d)


def k_key(w, layout):
    for i, c in enumerate(w):
        if c.upper() != c:
            yield w[:i] + c.upper() + w[i + 1:]
        for p, k in enumerate(layout):
            if k != c:
                continue
            for q in (p - 1, p + 1):
                if 0 <= q < len(layout) and layout[q] != '|':
                    yield w[:i] + layout[q] + w[i + 1:]


def k_extra(w):
    if len(w) >= 2:
        for i in range(len(w)):
            yield w[:i] + w[i + 1:]


def k_forgot(w, tr):
    for c in tr:
        for i in range(len(w) + 1):
            yield w[:i] + c + w[i:]


def k_move(w):
    n = len(w)
    if n < 2:
        return
    # forward by 2 and 3 places, then backward, from the end
    for i in range(n):
        for d in (2, 3):
            if i + d < n:
                rest = w[:i] + w[i + 1:]
                yield rest[:i + d] + w[i] + rest[i + d:]
    for i in range(n - 1, -1, -1):
        for d in (2, 3):
            if i - d >= 0:
                rest = w[:i] + w[i + 1:]
                yield rest[:i - d] + w[i] + rest[i - d:]


def k_bad(w, tr):
    for c in tr:
        for i in range(len(w) - 1, -1, -1):
            if w[i] != c:
                yield w[:i] + c + w[i + 1:]


def k_double(w):
    if len(w) < 5:
        return
    for i in range(len(w) - 3):
        if w[i:i + 2] == w[i + 2:i + 4]:
            yield w[:i + 2] + w[i + 4:]


# ------------------------------------------------------------------------------ similarity

def ngram(n, s1, s2, *, weighted=False, anym=False, longer=False):
    if not s2:
        return 0
    total = 0
    for size in range(1, n + 1):
        part = 0
        count = len(s1) - size + 1
        for i in range(max(0, count)):
            if s1[i:i + size] in s2:
                part += 1
            elif weighted:
                part -= 2 if i in (0, count - 1) else 1
        total += part
        if part < 2 and not weighted:
            break
    pen = 0
    if longer:
        pen = len(s2) - len(s1) - 2
    elif anym:
        pen = abs(len(s2) - len(s1)) - 2
    return total - max(0, pen)


def common_start(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


def lcs(a, b):
    prev = [0] * (len(b) + 1)
    for x in a:
        cur = [0]
        for j, y in enumerate(b):
            cur.append(prev[j] + 1 if x == y else max(prev[j + 1], cur[j]))
        prev = cur
    return prev[len(b)]


class SugModel:
    def __init__(self, m: Model):
        self.m = m
        s = self.spec = m.spec
        self.c = m.casing
        self.key = s.strs.get('KEY', DEFAULT_KEY)
        self.tr = s.strs.get('TRY', '')
        self.use_dash = '-' in self.tr or 'a' in self.tr
        self.maxcpd = s.ints.get('MAXCPDSUGS', 3)
        self.maxngram = s.ints.get('MAXNGRAMSUGS', 4)
        self.maxdiff = s.ints.get('MAXDIFF', -1)
        self.onlymaxdiff = 'ONLYMAXDIFF' in s.bools
        bad = {m.F[k] for k in ('FORBIDDENWORD', 'NOSUGGEST', 'ONLYINCOMPOUND')} - {None}
        self.guessable = [e for e in m.entries if not bad & e.flags]
        self.by_flag = {}
        for a in m.prefixes + m.suffixes:
            self.by_flag.setdefault((a.kind, a.flag), []).append(a)
        self.phone = None if s.phone is None else [parse_phone(a, b) for a, b in s.phone]
        self._codes = {}

    # -------------------------------------------------------------------------- corrections

    def edits(self, w):
        """(kind, candidate) in documented order"""
        yield Cand('uppercase', [self.c.upper(w)], False)
        for r in replacements(w, self.m.rep):
            if isinstance(r, list):
                yield Cand('replchars', [' '.join(r)], False)
                yield Cand('replchars', r, False)
            else:
                yield Cand('replchars', [r], False)
        for i in range(1, len(w)):
            yield Cand('spaceword', [w[:i] + ' ' + w[i:]], False)
            if self.use_dash:
                yield Cand('spaceword', [w[:i] + '-' + w[i:]], False)
        for kind, it in (('mapchars', k_map(w, self.spec.map)), ('swapchar', k_swap(w)),
                         ('longswapchar', k_longswap(w)), ('badcharkey', k_key(w, self.key)),
                         ('extrachar', k_extra(w)), ('forgotchar', k_forgot(w, self.tr)), ('movechar', k_move(w)),
                         ('badchar', k_bad(w, self.tr)), ('doubletwochars', k_double(w))):
            for x in it:
                yield Cand(kind, [x], False)
        if 'NOSPLITSUGS' not in self.spec.bools:
            for i in range(1, len(w)):
                yield Cand('twowords', [w[:i], w[i:]], self.use_dash)

    def valid(self, w, compounds=None):
        """Suggestable in exactly this spelling; compounds: None any, True compound, False not compound"""
        return self.m.good(w, cap=False, allow_nosuggest=False,
                           affix=compounds is not True, compound=compounds is not False)

    def forbidden(self, text):
        return self.m.any_forbidden(text)

    def finish(self, raw, word, ct):
        """What the user gets for the valid word(s) `raw`; None if nothing"""
        text = raw
        keep = self.m.has_flag(text, 'KEEPCASE') and not (self.m.sharps and 'ß' in text)
        if not keep:
            text = self.c.coerce(text, ct)
            if text != raw and self.forbidden(text):
                text = raw
            if ct in (HUH, HUHINIT) and ' ' in text:
                at = text.index(' ')
                if at + 1 < len(text) and at < len(word) and text[at + 1] != word[at] and \
                        text[at + 1].upper() == word[at]:
                    text = text[:at + 1] + word[at] + text[at + 2:]
        if self.forbidden(text):
            return None
        return self.m.oconv(text) if self.m.oconv else text

    def round(self, variant, compounds):
        """Valid raw corrections of one round: (kind, text)"""
        for c in self.edits(variant):
            self.m.step()
            if all(self.valid(x, compounds) for x in c.words):
                yield c.kind, ' '.join(c.words)
                if c.dash:
                    yield c.kind, '-'.join(c.words)

    def corrections(self, word):
        """All corrections (before dashes and guesses): [Sug]; and whether the search is over"""
        out, seen = [], set()

        def add(raw, kind, variant, compound):
            text = self.finish(raw, word, ct)
            if text is None or text in seen:
                return False
            seen.add(text)
            out.append(Sug(text, kind, raw, variant, compound))
            return True

        ct, variants = self.c.corrections(word)
        if self.m.F['FORCEUCASE'] is not None and ct == NO:
            for cap in self.c.capitalize(word):
                if self.valid(cap):
                    add(cap.capitalize(), 'forceucase', None, None)
                    return out, True
        for i, v in enumerate(variants):
            if i and self.valid(v):
                add(v, 'case', v, None)
            skip = False
            n = 0
            for kind, raw in self.round(v, False):
                if add(raw, kind, v, False):
                    n += 1
                    if kind == 'spaceword':
                        return out, True
                    if kind in ('uppercase', 'replchars', 'mapchars'):
                        skip = True
                    if n >= SIMPLE_LIMIT:
                        break
            if skip or self.maxcpd <= 0:
                continue
            n = 0
            for kind, raw in self.round(v, True):
                if add(raw, kind, v, True):
                    n += 1
                    if n >= self.maxcpd:
                        break
        return out, any(s.kind in DECISIVE for s in out)

    # -------------------------------------------------------------------------- dashes

    def dash_chunk(self, word):
        """(chunks, index of the first misspelled one) or None"""
        chunks = word.split('-')
        for i, c in enumerate(chunks):
            if not self.valid(c):
                return chunks, i
        return None

    def dashes(self, word, handled, suggest=None):
        if '-' not in word or any('-' in h for h in handled):
            return []
        found = self.dash_chunk(word)
        if not found:
            return []
        chunks, i = found
        out = []
        for s in (suggest or self.suggest)(chunks[i]):
            cand = '-'.join(chunks[:i] + [s] + chunks[i + 1:])
            if cand not in handled and cand not in out and self.m.lookup(cand, allow_nosuggest=False):
                out.append(cand)
        return out

    # -------------------------------------------------------------------------- guesses

    def root_score(self, word, e):
        best = None
        for t in [e.stem] + self.m.alts[e.idx]:
            t = t.lower()
            sc = ngram(3, word, t, longer=True) + common_start(word, t)
            best = sc if best is None else max(best, sc)
        return best

    def ngram_ranked(self, word):
        """[(score, text)] of all forms passing the threshold, best first; None if it depends on how equal
        entries are cut off"""
        word = word.lower()
        roots = [(self.root_score(word, e), e) for e in self.guessable if abs(len(e.stem) - len(word)) <= 4]
        roots.sort(key=lambda r: (r[0], r[1].stem), reverse=True)
        if len(roots) > 100 and (roots[99][0], roots[99][1].stem) == (roots[100][0], roots[100][1].stem):
            return None
        roots = roots[:100]
        total = 0
        for start in (1, 2, 3):
            mangled = ''.join('*' if i >= start and (i - start) % 4 == 0 else c for i, c in enumerate(word))
            total += ngram(len(word), word, mangled, anym=True)
        threshold = total // 3 - 1
        guesses = []

        def rough(t):
            return ngram(len(word), word, t, anym=True) + common_start(word, t)
        for _, e in roots:
            for alt in self.m.alts[e.idx]:
                sc = rough(alt)
                if sc > threshold:
                    guesses.append((sc, alt, e.stem))
            for f in self.similar_forms(e, word):
                sc = rough(f.lower())
                if sc > threshold:
                    guesses.append((sc, f, f))
        guesses.sort(reverse=True)
        guesses = guesses[:200]
        factor = (10.0 - self.maxdiff) / 5.0 if self.maxdiff >= 0 else 1.0
        res = [(self.precise(word, cmp.lower(), factor, sc), real) for sc, cmp, real in guesses]
        res.sort(key=lambda r: r[0], reverse=True)      # stable
        return res

    def similar_forms(self, e, word):
        out = [e.stem]
        suf = [a for f in sorted(e.flags) for a in self.by_flag.get(('S', f), ())
               if word.endswith(a.add) and cond_end(a, e.stem)]
        pre = [a for f in sorted(e.flags) for a in self.by_flag.get(('P', f), ())
               if word.startswith(a.add) and cond_start(a, e.stem)]
        for s in suf:
            out.append(cut(e.stem, 0, len(s.strip)) + s.add)
        for p in pre:
            out.append(p.add + e.stem[len(p.strip):])
            for s in suf:
                if p.cross and s.cross:
                    out.append(p.add + cut(e.stem, len(p.strip), len(s.strip)) + s.add)
        return out

    def precise(self, a, b, factor, base):
        common = lcs(a, b)
        if len(a) == len(b) == common:
            return base + 2000
        bigrams = ngram(2, a, b, anym=True, weighted=True) + ngram(2, b, a, anym=True, weighted=True)
        res = 2 * common - abs(len(a) - len(b)) + common_start(a, b)
        if any(x == y for x, y in zip(a, b.lower())):
            res += 1
        res += ngram(4, a, b, anym=True) + bigrams
        limit = (len(b) if self.spec.phone is not None else len(a) + len(b)) * factor
        if bigrams < limit:
            res -= 1000
        return res

    def ngram_stream(self, word, known):
        """Guesses in order, before case coercion; None if undetermined"""
        ranked = self.ngram_ranked(word)
        if ranked is None:
            return None
        known = {k.lower() for k in known}
        out = []
        last = False
        for score, text in ranked:
            if last and score <= 1000:
                break
            if score > 1000:
                last = True
            elif score < -100:
                if out or self.onlymaxdiff:
                    break
                last = True
            if not any(k in text for k in known):
                out.append(text)
        return out

    def guesses(self, word, stream, handled, limit):
        """Common end of both kinds of guesses. Returns [(raw, text)]"""
        ct = self.c.captype(word)
        seen = list(handled)
        out = []
        for raw in stream:
            text = self.finish(raw, word, ct)
            if text is None or text in seen or any(h.lower() in text.lower() for h in seen):
                pass
            else:
                seen.append(text)
                out.append((raw, text))
            if len(out) >= limit:
                break
        return out

    def ngrams(self, word, handled):
        if self.maxngram == 0:
            return []
        stream = self.ngram_stream(word, handled)
        if stream is None:
            return None
        return [t for _, t in self.guesses(word, stream, handled, self.maxngram)]

    def code(self, word):
        res = self._codes.get(word)
        if res is None:
            res = self._codes[word] = phone_code(self.phone, word)
        return res

    def phonet_stream(self, word):
        low = word.lower()
        code = self.code(low)
        rows = []
        for e in self.guessable:
            if abs(len(e.stem) - len(low)) > 3 or self.root_score(low, e) <= 2:
                continue
            rows.append((2 * ngram(3, code, self.code(e.stem), longer=True), e.stem))
        rows.sort(reverse=True)
        rows = [(sc + 2 * lcs(low, st.lower()) - abs(len(low) - len(st.lower())) + common_start(low, st.lower()), st)
                for sc, st in rows[:100]]
        rows.sort(key=lambda r: r[0], reverse=True)
        return [st for _, st in rows]

    def phonets(self, word, handled):
        if not self.phone:
            return []
        return [t for _, t in self.guesses(word, self.phonet_stream(word), handled, PHONET_LIMIT)]

    # -------------------------------------------------------------------------- everything

    def suggestions(self, word):
        """[(text, kind)] or None if undetermined"""
        sugs, over = self.corrections(word)
        out = [(s.text, s.kind) for s in sugs]
        if over:
            return out
        handled = [t for t, _ in out]
        for t in self.dashes(word, handled):
            out.append((t, 'dashes'))
        handled = [t for t, _ in out]
        ng = self.ngrams(word, handled)
        if ng is None:
            return None
        out += [(t, 'ngram') for t in ng]
        handled += ng
        out += [(t, 'phonet') for t in self.phonets(word, handled)]
        return out

    def suggest(self, word):
        res = self.suggestions(word)
        return [] if res is None else [t for t, _ in res]


def cut(text, a, b):
    return text[a:len(text) - b] if b else text[a:]


def cond_end(a, text):
    from .model import cond_ok_end
    return cond_ok_end(a.cond, text)


def cond_start(a, text):
    from .model import cond_ok_start
    return cond_ok_start(a.cond, text)


def parse_phone(search, repl):
    """(tokens [set of chars], number of look-ahead tokens, at start, at end, replacement)"""
    i = 0
    toks = []
    while i < len(search) and search[i] not in '(-^$<' and not (search[i].isdigit()):
        toks.append({search[i]})
        i += 1
    if i < len(search) and search[i] == '(':
        j = search.index(')', i)
        toks.append(set(search[i + 1:j]))
        i = j + 1
    la = 0
    while i < len(search) and search[i] == '-':
        la += 1
        i += 1
    flags = search[i:]
    return toks, la, '^' in flags, '$' in flags, '' if repl == '_' else repl


def phone_code(rules, word):
    word = word.upper()
    out, pos = '', 0
    while pos < len(word):
        for toks, la, start, end, repl in rules:
            n = len(toks)
            if start and pos > 0 or pos + n > len(word):
                continue
            if not all(word[pos + k] in toks[k] for k in range(n)):
                continue
            la = min(la, n)
            if end and pos + n - la != len(word):
                continue
            out += repl
            pos += max(1, n - la)
            break
        else:
            pos += 1
    return out
