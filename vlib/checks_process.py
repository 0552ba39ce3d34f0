"""Checks of where dictionaries are found (L04), of the process around (R01, R02), and of interrupted calls (H04)"""
import gc
import os
import random
import re
import shutil
import signal
import sys
import threading
import warnings
import weakref
import zipfile
from itertools import islice

from . import spec as S
from .checks_load import RICH
from .checks_suggest import SUG
from .checks_total import History, answer, cheap, run_child, problem_safe
from .common import guarded, ask, load
from .gen import profile, wchoice
from .harness import Check, Problem, REPO
from .model import Model

# ---------------------------------------------------------------------------------------------
# L04

NAMES = ['dict', 'en_XX', 'a.b', 'my dict', 'словарь', 'x.aff.y', 'd.dic', 'd.aff', 'X', 'x', 'xx', 'en_US', 'ru', 'sv_SE', 'en', 'en_GB', '~x',
         '$HOME', '%41', 'x-1', '.hidden', 'a+b', "it's"]
BUNDLED = ['en_US', 'ru', 'sv_SE']
BUNDLED_WORDS = {'en_US': 'elephant', 'ru': 'слон', 'sv_SE': 'elefant'}


def label(n):
    return ''.join('abcdefghij'[int(c)] for c in f'{n:03}')


class L04(Check):
    id = 'L04'
    technique = 'monitor on which files a loaded dictionary consists of'
    rule = ('A case is a tree of folders with many small dictionaries, incomplete ones and archives, each with content of its own, and '
            'requests to load one by path, name, or archive. An evaluation is the comparison of what was loaded (or of the failure) '
            'with what the request designates. It is non-trivial if the tree has another dictionary of the same or a similar name.')
    quick, thorough = 1500, 12000
    need = {'evaluations': 12000, 'from files': 5000, 'from system folders': 4000, 'from archives': 2000, 'designates nothing': 3000,
            'designates an incomplete dictionary': 1200, 'bundled': 110, 'named as a bundled one': 150, 'not in the first folder': 1000}

    def make(self, rng, i):
        names = rng.sample(NAMES, rng.randint(3, 7))
        folders = ['', 'a', 'b', 'a/b', 'c.d']
        tree = []
        for f in folders:
            for n in names:
                if rng.random() < .45:
                    tree.append([f, n, wchoice(rng, [('both', 6), ('aff', 1), ('dic', 1)])])
        if rng.random() < .3:
            tree.append(['a', names[0].swapcase(), 'both'])
        ops = []
        for _ in range(9):
            k = wchoice(rng, [('files', 5), ('system', 4), ('zip', 2)])
            n = rng.choice(names) if rng.random() < .9 else rng.choice(NAMES)
            f = rng.choice(folders)
            if tree and rng.random() < .5:
                f, n, _ = rng.choice(tree)
            if k == 'files':
                ops.append([k, n, f, rng.choice(['absolute', 'relative', 'dot', 'up'])])
            elif k == 'system':
                fs = [rng.choice(folders + ['none']) for _ in range(rng.randint(0, 3))]
                fs.insert(rng.randint(0, len(fs)), f)
                ops.append([k, n, fs, rng.choice(['class', 'subclass'])])
            else:
                ops.append([k, n, rng.choice([['aff', 'dic'], ['dic', 'aff'], ['aff', 'dic'], ['aff'], ['dic'], []]), rng.randrange(1 << 20)])
        if i % 12 == 0:
            # without files of that name, and nowhere else
            n = rng.choice(BUNDLED)
            tree = [t for t in tree if t[:2] != ['', n]]
            if rng.random() < .4:
                tree.append(['', n, 'dic'])
            ops.append(['files', n, '', 'relative'])
        return dict(tree=tree, ops=ops, _new=True)

    def write(self, folder, tree):
        """(folder, name) -> (content of the .aff, content of the .dic), which are numbers"""
        out = {}
        os.makedirs(folder)
        for f in ('a', 'b', 'a/b', 'c.d'):
            os.makedirs(os.path.join(folder, f), exist_ok=True)
        for k, (f, n, what) in enumerate(tree):
            p = os.path.join(folder, f, n)
            x = out.setdefault((f, n), [None, None])
            if what != 'dic':
                with open(p + '.aff', 'w', encoding='utf-8') as h:
                    h.write(f'SET UTF-8\nTRY {label(k)}\n')
                x[0] = k
            if what != 'aff':
                with open(p + '.dic', 'w', encoding='utf-8') as h:
                    h.write(f'1\nw{label(k)}\n')
                x[1] = k
        return out

    def judge(self, inp, rec):
        n = run_child(problem_safe(lambda: self.run(inp)))
        for k, v in n[1].items():
            rec.count(k, v)
        if '_new' in inp:
            rec.cases[repr(inp['tree']) + repr(inp['ops'])] = n[0]
        rec.sample(dict(tree=inp['tree'][:5], requests=inp['ops'][:4]))

    def run(self, inp):
        from spylls.hunspell import Dictionary
        folder = os.path.join(self.scratch, 't')
        shutil.rmtree(folder, ignore_errors=True)
        have = self.write(folder, inp['tree'])
        os.chdir(folder)
        counts, hard = {'evaluations': 0}, 0

        def count(what, n=1):
            counts[what] = counts.get(what, 0) + n
        listed = list(Dictionary.PATHES)
        for op in inp['ops']:
            cls = Dictionary
            kind, name = op[0], op[1]
            count('evaluations')
            like = sum(1 for f, n in have if n.casefold() == name.casefold() or n.startswith(name) or name.startswith(n))
            if kind == 'files':
                f, how = op[2], op[3]
                p = os.path.join(f, name)
                path = {'absolute': os.path.join(folder, p), 'relative': p, 'dot': './' + p, 'up': '../t/' + p}[how]
                want = have.get((f, name), [None, None])
                if name in BUNDLED and path == name:
                    count('named as a bundled one')
                    if want[0] is None:
                        want = name
                        count('bundled')
                text = f'from_files({path!r})'
                count('from files')
                call = lambda: cls.from_files(path)     # noqa: E731
            elif kind == 'system':
                pathes = [os.path.join(folder, f) if f else folder for f in op[2]]
                found = [f for f in op[2] if have.get((f, name), [None])[0] is not None]
                want = have[found[0], name] if found else [None, None]
                count('not in the first folder', bool(found) and found[0] != op[2][0])
                if op[3] == 'subclass':
                    cls = type('Sub', (Dictionary,), {'PATHES': pathes})
                else:
                    Dictionary.PATHES = pathes
                before = list(pathes)
                text = f'from_system({name!r}) in {op[2]}'
                count('from system folders')
                call = lambda: cls.from_system(name)    # noqa: E731
            else:
                path = os.path.join(folder, 'z.zip')
                rng = random.Random(op[3])
                with zipfile.ZipFile(path, 'w') as z:
                    members = [(rng.choice(['', 'dictionaries/', name + '/']) + name + '.' + ext, f'SET UTF-8\nTRY {label(900)}\n' if ext == 'aff' else
                                f'1\nw{label(901)}\n') for ext in op[2]]
                    members += [(m, 'TRY xyz\n1\nwrong\n') for m in ('readme.txt', name + '.aff.txt', 'dic', 'aff', name + '.dic_', name + '.affx',
                                                                     'x.aff/readme', 'install.rdf', name + '.DIC', name + '.Aff') if rng.random() < .4]
                    rng.shuffle(members)
                    for m, t in members:
                        z.writestr(m, t)
                want = [900 if 'aff' in op[2] else None, 901 if 'dic' in op[2] else None]
                text = f'from_zip() of an archive with {[m for m, _ in members]}'
                count('from archives')
                call = lambda: cls.from_zip(path)       # noqa: E731
            hard += like > 1
            none = not isinstance(want, str) and None in want
            if none:
                count('designates nothing' if want == [None, None] else 'designates an incomplete dictionary')
            try:
                d, e = call(), None
            except Exception as ex:     # pylint: disable=broad-except
                d, e = None, ex
            if kind == 'system':
                if pathes != before:
                    raise Problem(f'{text} changed the list of folders')
                if d is None and want[0] is None and not isinstance(e, LookupError):
                    raise Problem(f'{text} raised {e!r}, expected a LookupError')
                Dictionary.PATHES = listed
            if none:
                if e is None:
                    raise Problem(f'{text} loaded {[w.stem for w in d.dic.words][:3]} {d.aff.TRY!r}, though there is no such pair of files')
                continue
            if e is not None:
                raise Problem(f'{text} raised {type(e).__name__}: {e}')
            if type(d) is not cls:
                raise Problem(f'{text} gives a {type(d).__name__}')
            if isinstance(want, str):
                if len(d.dic.words) < 10000 or not d.lookup(BUNDLED_WORDS[want]):
                    raise Problem(f'{text} loaded {[w.stem for w in d.dic.words][:3]}, expected the bundled dictionary')
                continue
            got = [d.aff.TRY, [w.stem for w in d.dic.words]]
            if got != [label(want[0]), ['w' + label(want[1])]]:
                raise Problem(f'{text} loaded {got}, expected {[label(want[0]), ["w" + label(want[1])]]}')
            if not d.lookup('w' + label(want[1])) or d.lookup('w' + label(902)):
                raise Problem(f'{text}: wrong answers')
        return hard, counts

    def shrinks(self, inp):
        def with_(**kw):
            c = {k: v for k, v in inp.items() if not k.startswith('_')}
            c.update(kw)
            return c
        if len(inp['ops']) > 1:
            for op in inp['ops']:
                yield with_(ops=[op])
        for k in range(len(inp['tree'])):
            yield with_(tree=inp['tree'][:k] + inp['tree'][k + 1:])


# ---------------------------------------------------------------------------------------------
# R01

WRITES = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime',
          'shutil.', 'subprocess.', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.spawn', 'os.startfile', 'socket.', 'os.putenv',
          'os.unsetenv', 'os.chdir', 'os.kill', 'tempfile.', 'urllib.', 'http.', 'ftplib.', 'smtplib.', 'syslog.', 'pty.', 'webbrowser.',
          'mmap.', 'fcntl.', 'resource.', 'signal.', 'os.setxattr', 'os.lockf', 'gc.', '_thread.start_new_thread', 'builtins.input', 'sqlite3.')


class Events:
    """What the interpreter reports about effects on the outside; only in processes made for it, as it cannot be removed"""
    def __init__(self, folder):
        self.folder = folder
        self.seen, self.bad = 0, []
        self.opened = 0
        self.on = False
        self.fail_at = None

    def install(self):
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == 'open':
            path, mode, flags = args
            self.seen += 1
            writing = isinstance(mode, str) and set(mode) & set('wax+') or isinstance(flags, int) and flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            path = os.fsdecode(path) if isinstance(path, (str, bytes)) else repr(path)
            if writing and '__pycache__' not in path and '.no-pycache' not in path:
                self.bad.append(f'open({path!r}, {mode!r})')
            if os.path.abspath(path).startswith(self.folder):
                self.opened += 1
                if self.fail_at is not None and self.opened == self.fail_at:
                    raise OSError(5, 'Input/output error', path)
        elif event.startswith(WRITES):
            self.seen += 1
            self.bad.append(f'{event}{args!r}')


def descriptors():
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            out[int(fd)] = os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            pass        # the one of the listing itself
    return out


def state():
    import decimal
    import locale
    import logging
    import builtins
    mask = os.umask(0o22)
    os.umask(mask)
    root = logging.getLogger()
    return {
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'umask': mask,
        'random numbers': hash(random.getstate()), 'locale': locale.setlocale(locale.LC_ALL), 'warning filters': list(warnings.filters),
        'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'signal handlers': [signal.getsignal(s) for s in range(1, 32)], 'timers': [signal.getitimer(t)[1] for t in (0, 1, 2)],
        'threads': [t.name for t in threading.enumerate()], 'module path': list(sys.path),
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'garbage collection': [gc.isenabled(), gc.get_threshold(), gc.get_freeze_count()],
        'hooks': [sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile(), warnings.showwarning],
        'logging': [root.level, list(root.handlers), logging.root.manager.disable], 'builtins': sorted(vars(builtins)),
        'decimal context': repr(decimal.getcontext()), 'int digits': sys.get_int_max_str_digits(), 'open files': descriptors(),
        'bytecode': sys.dont_write_bytecode}


MALFORMED = [('SET NO-SUCH-ENCODING\n', '1\na\n'), ('SET UTF-8\nSFX A Y x\n', '1\na\n'), ('SET UTF-8\nREP x\n', '1\na\n'),
             ('SET UTF-8\nFLAG num\n', '1\na/x\n'), ('SET UTF-8\nAF 1\nAF x\n', '1\na/7\n'), ('SET UTF-8\nCOMPOUNDMIN x\n', '1\na\n'),
             ('SET UTF-8\nSFX A Y 9\nSFX A 0 a .\n', '1\na\n'), ('SET UTF-8\nFLAG strange\n', '1\na/x\n'), ('SET UTF-8\nSFX A Y 1\nSFX A 0 a [b\n', '1\na/A\n'),
             ('SET UTF-8\nMAP 3\n', '1\na\n'), ('SET UTF-8\nSFX A Y 1\nSFX\n', '1\na\n'), ('', ''), ('SET UTF-8\n', ''), ('SET UTF-8\nFLAG num\nSFX 1 Y 1\nSFX 1 0 a/x .\n', '1\na\n'),
             ('SET UTF-8\nAM 2\nAM x\n', '1\na\n'), ('SET\n', '1\na\n'), ('SET UTF-8\nPHONE 1\nPHONE ((( x\n', '1\na\n'),
             ('SET UTF-8\nCOMPOUNDRULE 1\nCOMPOUNDRULE ((\n', '1\na\n'), ('TRY abc\nSET\n', '1\na\n'), ('SET UTF-8\nSET NO-SUCH\n', '1\na\n')]


class R01(History):
    id = 'R01'
    technique = 'sanitizer: open files, interpreter audit events and process state around every call, with injected failures'
    rule = ('A case is a history of loads (complete, failing, with failing system calls), lookups, suggestions and analyses in a process '
            'of its own. An evaluation is the comparison of the process (open files, output, environment, handlers, audit events, ...) '
            'before and after one call. It is non-trivial if the call opened files, or was a question.')
    profiles = [(profile(**dict(RICH, words=(3, 10))), 3), (profile(**dict(SUG, words=(3, 10))), 2)]
    fixtures = .1
    bundled = 0
    quick, thorough = 700, 6000
    need = {'evaluations': 7000, 'loads': 1500, 'failed loads': 1300, 'failed system calls': 250, 'questions': 1500, 'suggestions': 600,
            'files opened': 7000, 'audit events': 20000, 'answers without the files': 2500, 'loads in another encoding': 1200}

    def make(self, rng, i):
        x = self.make_one(rng, 6, 4)
        if x is None:
            return None
        model = Model(x['spec'])
        words = list(dict.fromkeys(op[1] for op in x['ops']))
        acts = [['import'], ['good', 'files']]
        for _ in range(rng.randint(6, 11)):
            k = wchoice(rng, [('good', 2), ('ask', 7), ('malformed', 3), ('fail', 2), ('missing', 1), ('archive', 2), ('lose', 1)])
            if k in ('good', 'fail'):
                acts.append([k, rng.choice(['files', 'zip', 'system']), rng.randint(1, 4)])
            elif k == 'ask':
                acts.append([k] + (rng.choice(x['ops']) if x['ops'] else ['lookup', 'a', None]))
            elif k == 'malformed':
                acts.append([k, rng.choice(['files', 'zip']), rng.randrange(len(MALFORMED))])
            elif k == 'missing':
                acts.append([k, rng.choice(['aff', 'dic', 'folder', 'zip', 'system'])])
            elif k == 'archive':
                acts.append([k, rng.choice(['cut', 'bytes', 'empty', 'no dic', 'no aff', 'text']), rng.randrange(1 << 20)])
            else:
                acts.append([k])
        acts += [['good', rng.choice(['files', 'zip', 'system']), 0], ['lookups']]
        want = []
        for w in words:
            model.limit(3000)
            try:
                want.append([w, model.lookup(w)])
            except Exception:   # pylint: disable=broad-except
                pass
        return dict(spec=x['spec'], rep=x['rep'], acts=acts, want=want, _model=None)

    def judge(self, inp, rec):
        n, counts = run_child(problem_safe(lambda: self.run(inp)))
        for k, v in counts.items():
            rec.count(k, v)
        if '_model' in inp:
            rec.cases[repr(inp['acts']) + repr(inp['want'])] = n
        rec.sample(dict(calls=inp['acts'][:8]))

    def run(self, inp):
        folder = os.path.join(self.scratch, 'r')
        shutil.rmtree(folder, ignore_errors=True)
        work = os.path.join(folder, 'cwd')
        os.makedirs(work)
        good = os.path.join(folder, 'good')
        os.makedirs(good)
        path = os.path.join(good, 'd')
        S.write(inp['spec'], inp['rep'], path)
        S.write_zip(inp['spec'], inp['rep'], path + '.zip')
        with open(path + '.zip', 'rb') as f:
            archive = f.read()
        bad = os.path.join(folder, 'bad')
        os.makedirs(bad)
        os.chdir(work)
        gc.disable()
        out = os.path.join(self.scratch, 'out')
        for fd, name in ((1, 'out'), (2, 'err')):
            h = os.open(out + name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(h, fd)
            os.close(h)
        events = Events(folder)
        events.install()
        counts, hard = {}, 0

        def count(what, n=1):
            counts[what] = counts.get(what, 0) + n
        now = {}

        def loader(how):
            from spylls.hunspell import Dictionary
            if how == 'files':
                return Dictionary.from_files(path)
            if how == 'zip':
                return Dictionary.from_zip(path + '.zip')
            return type('Dict', (Dictionary,), {'PATHES': [bad, good]}).from_system('d')

        def write(name, data):
            with open(os.path.join(bad, name), 'wb') as f:
                f.write(data)

        def attempt(fn):
            """Value, or None after an ordinary exception, which is dropped"""
            try:
                return fn()
            except Exception:   # pylint: disable=broad-except
                count('failed loads')
                return None

        def act(a):
            kind = a[0]
            if kind == 'import':
                return lambda: __import__('spylls.hunspell')
            if kind == 'good':
                if not os.path.exists(path + '.aff'):
                    S.write(inp['spec'], inp['rep'], path)
                    S.write_zip(inp['spec'], inp['rep'], path + '.zip')
                count('loads')
                count('loads in another encoding', inp['rep'].encoding not in (None, 'Windows-1252'))

                def fn():
                    now['d'] = guarded(f'loading ({a[1]})', lambda: loader(a[1]))
                return fn
            if kind == 'lose':
                # what was read is not needed any more
                count('files lost')

                def lose():
                    events.on = False
                    for f in os.listdir(good):
                        os.unlink(os.path.join(good, f))
                    events.on = True
                return lose
            if kind == 'ask':
                count('questions')
                count('suggestions', a[1] in ('suggest', 'kinds'))
                return lambda: answer(now['d'], a[1:])
            if kind == 'lookups':
                for f in os.listdir(good):
                    os.unlink(os.path.join(good, f))

                def lookups():
                    for w, v in inp['want']:
                        count('answers without the files')
                        if ask(now['d'], w) is not v:
                            raise Problem(f'lookup({w!r}) is {not v} at the end, expected {v}')
                return lookups
            from spylls.hunspell import Dictionary
            if kind == 'malformed':
                aff, dic = MALFORMED[a[2]]
                if a[1] == 'files':
                    write('m.aff', aff.encode())
                    write('m.dic', dic.encode())
                    return lambda: attempt(lambda: Dictionary.from_files(os.path.join(bad, 'm')))
                with zipfile.ZipFile(os.path.join(bad, 'm.zip'), 'w') as z:
                    z.writestr('m.aff', aff)
                    z.writestr('m.dic', dic)
                return lambda: attempt(lambda: Dictionary.from_zip(os.path.join(bad, 'm.zip')))
            if kind == 'missing':
                if a[1] == 'system':
                    return lambda: attempt(lambda: type('Dict', (Dictionary,), {'PATHES': [bad, good]}).from_system('none'))
                if a[1] == 'zip':
                    return lambda: attempt(lambda: Dictionary.from_zip(os.path.join(bad, 'none.zip')))
                for ext in ('aff', 'dic'):
                    p = os.path.join(bad, 'n.' + ext)
                    if os.path.exists(p):
                        os.unlink(p)
                    if a[1] != ext:
                        write('n.' + ext, b'SET UTF-8\n' if ext == 'aff' else b'1\na\n')
                if a[1] == 'folder':
                    os.unlink(os.path.join(bad, 'n.dic'))
                    os.makedirs(os.path.join(bad, 'n.dic'))

                    def fn():
                        attempt(lambda: Dictionary.from_files(os.path.join(bad, 'n')))
                        events.on = False
                        os.rmdir(os.path.join(bad, 'n.dic'))
                        events.on = True
                    return fn
                return lambda: attempt(lambda: Dictionary.from_files(os.path.join(bad, 'n')))
            if kind == 'archive':
                rng = random.Random(a[2])
                p = os.path.join(bad, 'a.zip')
                data = bytearray(archive)
                if a[1] == 'cut':
                    data = data[:rng.randrange(len(data))]
                elif a[1] == 'bytes':
                    for _ in range(rng.choice([1, 2, 5, 20])):
                        data[rng.randrange(len(data))] = rng.randrange(256)
                elif a[1] == 'empty':
                    data = b''
                elif a[1] == 'text':
                    data = b'not an archive'
                write('a.zip', bytes(data))
                if a[1].startswith('no '):
                    with zipfile.ZipFile(p, 'w') as z:
                        z.writestr('x.' + ('aff' if a[1] == 'no dic' else 'dic'), 'SET UTF-8\n')
                return lambda: attempt(lambda: Dictionary.from_zip(p))
            # the n-th system call to open a file fails
            if not os.path.exists(path + '.aff'):
                S.write(inp['spec'], inp['rep'], path)
                S.write_zip(inp['spec'], inp['rep'], path + '.zip')

            def failing():
                events.fail_at = events.opened + a[2]
                before = counts.get('failed loads', 0)
                attempt(lambda: loader(a[1]))
                events.fail_at = None
                count('failed system calls', counts.get('failed loads', 0) - before)
            return failing

        # modules used for the observation
        state()
        answer_lost = False
        for a in inp['acts']:
            fn = act(a)
            if a[0] == 'ask' and answer_lost:
                count('answers without the files')
            answer_lost = a[0] == 'lose' or answer_lost and a[0] != 'good'
            before, opened = state(), events.opened
            events.on = True
            fn()
            events.on = False
            after = state()
            text = ' '.join(map(str, a))[:80]
            count('evaluations')
            hard += events.opened > opened or a[0] in ('ask', 'lookups')
            for k, v in before.items():
                if after[k] != v:
                    x, y = v, after[k]
                    if k == 'open files':
                        x, y = len(x), {f: t for f, t in y.items() if x.get(f) != t} or 'fewer'
                    raise Problem(f'{k} changed by {text!r}: {str(x)[:200]} -> {str(y)[:200]}')
            if events.bad:
                raise Problem(f'{text!r}: {events.bad[:3]}')
            sys.stdout.flush()
            sys.stderr.flush()
            for name in ('out', 'err'):
                if os.path.getsize(out + name):
                    with open(out + name, encoding='utf-8', errors='replace') as f:
                        raise Problem(f'{text!r} printed {f.read()[:200]!r}')
        found = sorted(os.path.join(r, f) for r, _d, fs in os.walk(folder) for f in fs)
        left = [f for f in found if not f.startswith(bad)]
        if left or os.listdir(work):
            raise Problem(f'files were left: {left or os.listdir(work)}')
        counts['files opened'] = events.opened
        counts['audit events'] = events.seen
        return hard, counts

    def shrinks(self, inp):
        def with_(**kw):
            c = {k: v for k, v in inp.items() if not k.startswith('_')}
            c.update(kw)
            return c
        for k in range(2, len(inp['acts']) - 2):
            yield with_(acts=inp['acts'][:k] + inp['acts'][k + 1:])
        if not inp['want']:
            for i in range(len(inp['spec'].words)):
                c = S.copy(inp['spec'])
                del c.words[i]
                yield with_(spec=c)
        elif len(inp['want']) > 1:
            for w in inp['want']:
                yield with_(want=[w])
        else:
            yield with_(want=[])


# ---------------------------------------------------------------------------------------------
# R02

class Fresh:
    """Words that did not occur before, without remembering them"""
    def __init__(self, seed, alphabet, stems):
        self.rng, self.alphabet, self.stems, self.n = random.Random(seed), alphabet, stems, 0

    def word(self):
        self.n += 1
        n, w = self.n * 7919 % 1000003, ''
        for _ in range(5):
            w += self.alphabet[n % len(self.alphabet)]
            n //= len(self.alphabet)
        r = self.rng.random()
        if r < .25:
            w = self.rng.choice(self.stems) + w
        elif r < .5:
            w += self.rng.choice(self.stems)
        elif r < .65:
            w = self.rng.choice(self.stems) + '-' + w
        return w.capitalize() if r > .8 else w.upper() if r > .75 else w


def blocks():
    gc.collect()
    return sys.getallocatedblocks()


class R02(Check):
    id = 'R02'
    technique = 'sanitizer: blocks of memory in use after batches of questions and after dictionaries are dropped'
    rule = ('A case is a dictionary and thousands of questions about words never asked before, in a process of its own, or a sequence of '
            'different dictionaries loaded, used and dropped. An evaluation is one measurement of the allocated blocks after a batch. It '
            'is non-trivial if it comes after the batches that may fill caches of fixed size.')
    quick, thorough = 64, 480
    warm, batches = 1300, 4
    need = {'evaluations': 300, 'questions: lookup': 30000, 'questions: suggest': 20000, 'questions: forms': 20000,
            'dictionaries dropped': 100, 'unreferenced objects seen to disappear': 600}

    def make(self, rng, i):
        return dict(kind=('lookup', 'suggest', 'forms', 'drop')[i % 4], seed=rng.randrange(1 << 30), _new=True)

    def dictionary(self, rng, n):
        """A dictionary with few ways to correct a word, so that many questions can be asked"""
        letters = 'abcdefghijklmno'
        spec = S.Spec()
        stems = set()
        while len(stems) < n:
            stems.add(''.join(rng.choice(letters) for _ in range(rng.randint(3, 6))))
        flag = {'COMPOUNDFLAG': 1, 'KEEPCASE': 2, 'FORBIDDENWORD': 3, 'NOSUGGEST': 4}
        spec.flags = {k: v for k, v in flag.items() if rng.random() < .6}
        spec.words = [S.Entry(s, tuple(f for f in (1, 2, 3, 4, 5, 6) if rng.random() < (.4 if f in (1, 5, 6) else .1)), []) for s in sorted(stems)]
        spec.affixes = [S.Affix('S', 5, True, [S.Rule('', 'ab', [], ()), S.Rule('', 'no', [], ())]),
                        S.Affix('P', 6, True, [S.Rule('', 'lm', [], ())])]
        if rng.random() < .5:
            spec.strs['TRY'] = 'abc'
        if rng.random() < .5:
            spec.rep = [('ab', 'ba'), ('c', 'cc')]
        if rng.random() < .3:
            spec.map = [['a', 'e']]
        if rng.random() < .3:
            spec.iconv = [('mm', 'm')]
        spec.ints['MAXNGRAMSUGS'] = rng.choice([0, 1])
        return spec

    def judge(self, inp, rec):
        n, counts, seen = run_child(problem_safe(lambda: self.run(inp)), 300)
        for k, v in counts.items():
            rec.count(k, v)
        if '_new' in inp:
            rec.cases[repr((inp['kind'], inp['seed']))] = n
        rec.sample(dict(kind=inp['kind'], blocks=seen), 6)

    def run(self, inp):
        rng = random.Random(inp['seed'])
        kind = inp['kind']
        counts = {}
        path = os.path.join(self.scratch, 'd')
        if kind == 'drop':
            return self.drop(rng, path, counts)
        n = {'lookup': 1300, 'suggest': 300, 'forms': 1300}[kind]
        spec = self.dictionary(rng, 12 if kind == 'suggest' else 40)
        S.write(spec, S.default_rep(spec, rng, 'short'), path)
        d = load(path)
        fresh = Fresh(inp['seed'], 'abcdefghijklmno', [w.stem for w in spec.words])
        seen = []
        size = self.warm
        for _ in range(1 + self.batches):
            for _ in range(size):
                guarded(kind, lambda: answer(d, [kind, fresh.word(), None]))
            counts[f'questions: {kind}'] = counts.get(f'questions: {kind}', 0) + size
            size = n
            re.purge()
            seen.append(blocks())
        counts['evaluations'] = len(seen)
        growth = [b - a for a, b in zip(seen, seen[1:])]
        if min(growth) > n / 3:
            raise Problem(f'{growth} more blocks of memory in use after batches of {n} {kind} questions')
        return self.batches, counts, seen

    def drop(self, rng, path, counts):
        seen = []
        size = 150
        for k in range(8):
            spec = self.dictionary(rng, size)
            S.write(spec, S.default_rep(spec, rng, 'short'), path)
            words = [w.stem for w in spec.words[:3]]
            del spec
            refs = self.one(path, words, k)
            re.purge()
            seen.append(blocks())
            counts['dictionaries dropped'] = k + 1
            left = [n for n, r in refs if r() is not None]
            counts['unreferenced objects seen to disappear'] = counts.get('unreferenced objects seen to disappear', 0) + len(refs)
            if left:
                raise Problem(f'still in memory after the dictionary was dropped: {left}')
        counts['evaluations'] = len(seen)
        growth = [b - a for a, b in zip(seen[2:], seen[3:])]
        if min(growth) > size / 3:
            raise Problem(f'{growth} more blocks of memory in use for each dictionary of {size} entries that was loaded and dropped')
        return len(seen) - 2, counts, seen

    @staticmethod
    def one(path, words, k):
        d = load(path)
        for w in words:
            guarded('lookup', lambda: d.lookup(w))
            guarded('suggest', lambda: list(islice(d.suggest(w + 'a'), 2)))
            guarded('analysis', lambda: list(d.lookuper.good_forms(w + 'ab')))
        g = d.suggest(words[0] + 'b')
        if k % 2:
            next(g, None)
        refs = []
        for name, x in (('dictionary', d), ('affix data', d.aff), ('word list', d.dic), ('entry', d.dic.words[0]), ('lookup', d.lookuper),
                        ('suggester', d.suggester)):
            try:
                refs.append((name, weakref.ref(x)))
            except TypeError:
                pass
        return refs


# ---------------------------------------------------------------------------------------------
# H04

class Interrupted(BaseException):
    pass


def interrupted(at, exc, fn):
    """Run fn, raising exc at the `at`-th executed line of the code under test; (finished, result)"""
    mon = sys.monitoring
    prefix = os.path.join(REPO, 'spylls')
    n = 0

    def on_line(code, _line):
        nonlocal n
        if code.co_filename.startswith(prefix):
            n += 1
            if n == at:
                raise exc('interrupted')
    mon.use_tool_id(5, 'verif-interrupt')
    mon.register_callback(5, mon.events.LINE, on_line)
    mon.set_events(5, mon.events.LINE)
    try:
        return True, fn(), n
    except exc:
        return False, None, n
    finally:
        mon.set_events(5, 0)
        mon.free_tool_id(5)


EXCS = {'Interrupted': Interrupted, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'TimeoutError': TimeoutError,
        'RecursionError': RecursionError}


class H04(History):
    id = 'H04'
    technique = 'differential monitor with injected interruptions at random lines of the code under test'
    rule = ('A case is a dictionary and a history of questions and loads, some of them interrupted by an exception at a random executed '
            'line. An evaluation is the comparison of the answer to a question after an interruption with the answer of a dictionary '
            'that was never interrupted. It is non-trivial if the interrupted call had executed at least one line.')
    profiles = [(profile(**dict(RICH, words=(3, 10))), 3), (profile(**dict(SUG, rep=.3, map=.3, phone=.3, words=(5, 14))), 3),
                (profile(**dict(SUG, COMPOUNDFLAG=(1., .7), words=(4, 10))), 1), (profile(**dict(RICH, german=.6, turkic=.3, words=(2, 8))), 1),
                (profile(cap=.7, words=(4, 10)), 2)]
    quick, thorough = 900, 7000
    need = {'evaluations': 60000, 'interrupted at first use': 2500, 'interrupted: lookup': 1500, 'interrupted: suggest': 2000, 'interrupted: forms': 1000,
            'interrupted: load': 800, 'compared: data': 800}

    def make(self, rng, i):
        x = self.make_one(rng, 9, 6)
        if x is None or not x['ops']:
            return None
        acts = []
        stems = [e.stem for e in x['spec'].words if not e.stem.isupper() and len(e.stem) < 12]
        rng.shuffle(stems)
        stems.sort(key=lambda w: w[1:] == w[1:].lower())        # capitals inside first
        x['ops'] += [['lookup', w, None] for w in cheap(Model(x['spec']), [w.upper() for w in stems[:4]], 0)[0]]
        for _ in range(9):
            acts.append([rng.choice(['load', 'ask', 'ask', 'ask', 'ask', 'ask']), rng.randrange(len(x['ops'])), rng.random(),
                         rng.choice(sorted(EXCS)), rng.random() < .6])
        return dict(spec=x['spec'], rep=x['rep'], ops=x['ops'], acts=acts, _model=None)

    def judge(self, inp, rec):
        n, counts = run_child(problem_safe(lambda: self.run(inp)))
        for k, v in counts.items():
            rec.count(k, v)
        if '_model' in inp:
            rec.cases[repr(inp['ops']) + repr(inp['acts'])] = n
        rec.sample(dict(questions=inp['ops'][:4], interruptions=inp['acts'][:4]))

    def run(self, inp):
        from .checks_total import canon
        from .checks_load import public
        counts = {}

        def count(what, n=1):
            counts[what] = counts.get(what, 0) + n
        path = os.path.join(self.scratch, 'd')
        S.write(inp['spec'], inp['rep'], path)
        ops = inp['ops']
        want = [answer(load(path), op) for op in ops]
        # how long the calls are, in lines
        size = [interrupted(0, Interrupted, lambda op=op: answer(load(path), op))[2] for op in ops]
        load_size = interrupted(0, Interrupted, lambda: load(path))[2]
        size = [max(1, s - load_size) for s in size]
        d = load(path)
        data = canon(public(d))
        hard = 0

        def raw(op):
            kind, w, k = op
            if kind == 'lookup':
                return d.lookup(w)
            if kind == 'suggest':
                return list(islice(d.suggest(w), k)) if k is not None else list(d.suggest(w))
            if kind == 'kinds':
                return [[s.text, s.kind] for s in d.suggester.suggestions(w)]
            return list(islice(d.lookuper.good_forms(w, **(k or {})), 200))

        def raw_load():
            from spylls.hunspell import Dictionary
            return Dictionary.from_files(path)
        for kind, j, where, exc, new in inp['acts']:
            op = ops[j]
            if new:
                # nothing was asked before, so that whatever is prepared at the first use is not there yet
                d = load(path)
                count('interrupted at first use', kind != 'load')
            at = 1 + int(where * (load_size if kind == 'load' else size[j]))
            done, _, lines = interrupted(at, EXCS[exc], raw_load if kind == 'load' else lambda: raw(op))
            count('not interrupted' if done else 'interrupted: ' + ('load' if kind == 'load' else op[0]))
            text = f'after {"loading" if kind == "load" else op} was interrupted by {exc} at line {at} of {load_size if kind == "load" else size[j]}'
            if kind == 'load':
                e = load(path)
                count('evaluations')
                count('compared: data')
                if canon(public(e)) != data:
                    raise Problem(f'other data loaded {text}')
            for t in dict.fromkeys([j, *range(len(ops))]):
                got = answer(d, ops[t])
                count('evaluations')
                hard += not done and lines > 0
                if got != want[t]:
                    raise Problem(f'{ops[t][0]}({ops[t][1]!r}) is {got!r} {text}, {want[t]!r} otherwise')
        count('evaluations')
        count('compared: data')
        if canon(public(d)) != data:
            raise Problem('data changed by interrupted questions')
        return hard, counts

    def shrinks(self, inp):
        def with_(**kw):
            c = {k: v for k, v in inp.items() if not k.startswith('_')}
            c.update(kw)
            return c
        if len(inp['acts']) > 1:
            for a in inp['acts']:
                yield with_(acts=[a])
            for k in range(len(inp['acts'])):
                yield with_(acts=inp['acts'][:k] + inp['acts'][k + 1:])
        for i in range(len(inp['spec'].words)):
            c = S.copy(inp['spec'])
            del c.words[i]
            yield with_(spec=c)
