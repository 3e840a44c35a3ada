"""breaking off an operation at every line: where it can be, and doing it"""
import ast, os, sys

NEO = '/repo/neocore/'
OTHERS = ('bitcoin', 'base58', 'ecdsa', 'scrypt')
_skip = {}


class Break(BaseException):
    """as KeyboardInterrupt, but nobody else's"""


def skipped(filename):
    """lines where no break is tried: the header lines of with and try (nothing can guard the step between setting up and
    the guarded block) and the clean-up blocks themselves"""
    got = _skip.get(filename)
    if got is None:
        got = set()
        try:
            with open(filename, encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module(body=[], type_ignores=[])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                got |= set(range(n.lineno, n.body[0].lineno)) or {n.lineno}
            elif isinstance(n, ast.Try):
                got |= set(range(n.lineno, n.body[0].lineno)) or {n.lineno}
                for b in n.finalbody:
                    got |= set(range(b.lineno, b.end_lineno + 1))
                for h in n.handlers:
                    if any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(h)):
                        got |= set(range(h.lineno, h.end_lineno + 1))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ('__enter__', '__exit__', '__del__'):
                got |= set(range(n.lineno, n.end_lineno + 1))
        _skip[filename] = got
    return got


_kind = {}


def whose(code):
    """'n': the library; 'o': what it calls; '': everything else"""
    f = code.co_filename
    k = _kind.get(f)
    if k is None:
        parts = f.split('/')
        k = 'n' if os.path.realpath(f).startswith(NEO) else 'o' if any(p in OTHERS or p.split('.')[0] in OTHERS for p in parts[-3:]) and 'packages' in f else ''
        _kind[f] = k
    return k


class Trace:
    """counts the lines and returns of an operation; breaks off at the n-th occurrence of one"""

    def __init__(self, target=None, nth=1):
        self.target, self.nth = target, nth
        self.seen = {}
        self.hit = False
        self.make = Break

    def __call__(self, frame, event, arg):
        if event != 'call' or not whose(frame.f_code):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'exception':
            return self.local
        code = frame.f_code
        k = whose(code)
        if event == 'return' and (k != 'n' or code.co_name in ('__enter__', '__exit__', '__del__')):
            return self.local
        if event == 'line' and frame.f_lineno in skipped(code.co_filename):
            return self.local
        key = (code.co_filename, frame.f_lineno if event == 'line' else code.co_firstlineno, event, k)
        n = self.seen[key] = self.seen.get(key, 0) + 1
        if key == self.target and n == self.nth:
            self.hit = True
            raise self.make('%s:%d' % (os.path.basename(key[0]), key[1]))
        return self.local

    def run(self, f):
        """('value', v), ('raised', exception) or ('broken', None)"""
        old = sys.gettrace()
        sys.settrace(self)
        try:
            v = f()
            return 'value', v
        except Break:
            return 'broken', None
        except Exception as e:
            return 'raised', e
        finally:
            sys.settrace(old)


def record(f):
    """{place: how often}"""
    t = Trace()
    t.run(f)
    return t.seen


def targets(seen, deep):
    """every place: first, second and last time (deep: also the third, the middle and the one before the last); long
    operations: first and last time (deep: as above), and the first time of the places in other libraries"""
    long = sum(seen.values()) > 6000
    for key in sorted(seen):
        n = seen[key]
        if long and key[3] == 'o':
            at = {1, n} if deep else {1}
        else:
            at = {1, n} | (set() if long and not deep else {2}) | ({3, n // 2, n - 1} if deep else set())
        for k in sorted(a for a in at if 1 <= a <= n):
            yield key, k


def label(key):
    return '%s:%d%s' % (key[0].split('/repo/')[-1].split('packages/')[-1], key[1], '' if key[2] == 'line' else ' (its end)')
