"""what belongs to the process and not to the library: taken down, compared, and set to unusual values"""
import atexit, socket, tempfile, time
import builtins, decimal, faulthandler, gc, locale, logging, os, random, resource, signal, sys, threading, types, warnings

CONSTANTS = ('base58', 'binascii', 'struct', 'hashlib', 'decimal', 'math', 'string', 'unicodedata', 'json', 'argparse', 'scrypt', 'ecdsa', 'importlib', 'io', 'os', 'sys')
LEFT = ('mc', 'neocore', '__main__', '__mp_main__')
CALLABLE = (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, types.MethodType, types.MethodDescriptorType)


def context(c):
    return c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(k.__name__ for k, v in c.traps.items() if v))


def modules():
    out = {}
    for name, m in list(sys.modules.items()):
        if m is None or name.split('.')[0] in LEFT or not isinstance(m, types.ModuleType):
            continue
        plain = name in CONSTANTS
        for k, v in list(vars(m).items()):
            if isinstance(v, CALLABLE):
                out[name, k] = id(v)
            elif plain and isinstance(v, (int, float, str, bytes, tuple)) and not k.startswith('_') and k not in ('last_type', 'last_value', 'last_exc', 'argv', 'path'):
                try:
                    out[name, k] = hash(v)
                except TypeError:
                    pass
    return out


def classes():
    """attributes of the types that are used everywhere"""
    return {(t.__name__, k): id(v) for t in (decimal.Decimal, decimal.Context, logging.Logger, logging.Handler, logging.Formatter, random.Random, threading.Thread, __import__('argparse').ArgumentParser, __import__('io').StringIO) for k, v in vars(t).items() if isinstance(v, CALLABLE)}


def take():
    """{what: value}"""
    s = {}
    s['decimal context'] = context(decimal.getcontext())
    s['default decimal contexts'] = tuple(context(c) for c in (decimal.DefaultContext, decimal.BasicContext, decimal.ExtendedContext))
    s['locale'] = tuple(locale.setlocale(c) for c in (locale.LC_CTYPE, locale.LC_NUMERIC, locale.LC_TIME, locale.LC_COLLATE, locale.LC_MONETARY))
    s['warning filters'] = tuple(map(repr, warnings.filters)), id(warnings.showwarning), id(warnings.formatwarning)
    s['recursion limit'] = sys.getrecursionlimit()
    s['integer digits limit'] = sys.get_int_max_str_digits()
    s['switch interval'] = sys.getswitchinterval()
    s['module path'] = tuple(sys.path), len(sys.meta_path), len(sys.path_hooks)
    s['arguments'] = tuple(sys.argv)
    s['standard streams'] = id(sys.stdin), id(sys.stdout), id(sys.stderr)
    s['encodings of the streams'] = tuple((getattr(f, 'encoding', None), getattr(f, 'errors', None)) for f in (sys.stdin, sys.stdout, sys.stderr))
    s['hooks'] = id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook), id(sys.gettrace()), id(sys.getprofile()), id(getattr(threading, '_trace_hook', None))
    s['bytecode writing'] = sys.dont_write_bytecode
    s['environment'] = tuple(sorted(os.environ.items()))
    s['working directory'] = os.getcwd()
    u = os.umask(0o22)
    os.umask(u)
    s['file mode mask'] = u
    s['signals'] = tuple((n, id(signal.getsignal(n)) if callable(signal.getsignal(n)) and not isinstance(signal.getsignal(n), signal.Handlers) else signal.getsignal(n)) for n in sorted(signal.valid_signals()))
    s['priority'] = os.getpriority(os.PRIO_PROCESS, 0)
    s['resource limits'] = tuple((n, resource.getrlimit(getattr(resource, n))) for n in sorted(dir(resource)) if n.startswith('RLIMIT_'))
    s['actions at exit'] = atexit._ncallbacks()
    s['blocked signals'] = tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])))
    s['timers'] = tuple(signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)), signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0, signal.getitimer(signal.ITIMER_PROF)[0] > 0
    s['processors'] = tuple(sorted(os.sched_getaffinity(0)))
    u = threading.stack_size()
    threading.stack_size(u)
    s['stack size of threads'] = u
    s['socket time-out'] = socket.getdefaulttimeout()
    s['time zone'] = time.tzname, time.timezone
    s['user, group, session'] = os.getresuid(), os.getresgid(), os.getsid(0), os.getpgrp()
    s['tracking of coroutines'] = sys.get_coroutine_origin_tracking_depth(), id(sys.get_asyncgen_hooks().firstiter)
    s['temporary directory'] = tempfile.tempdir
    s['garbage collection'] = gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)
    s['fault handler'] = faulthandler.is_enabled()
    s['threads'] = threading.active_count()
    s['open files'] = tuple(sorted(os.listdir('/proc/self/fd')))
    r = logging.getLogger()
    s['root logger'] = r.level, tuple(map(id, r.handlers)), tuple(map(id, r.filters)), r.disabled, logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.getLogRecordFactory())
    for n in ('mine', 'py.warnings', 'logzero_default', 'asyncio'):
        g = logging.getLogger(n)
        s['logger %s' % n] = g.level, tuple((id(h), h.level, id(h.formatter)) for h in g.handlers), tuple(map(id, g.filters)), g.propagate, g.disabled
    s['level names'] = tuple(logging.getLevelName(x) for x in range(0, 60, 5))
    s['builtins'] = tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_'))
    return s


# the random generator is drawn from by some operations, so its state may move on, but not be set

def difference(a, b):
    for k in a:
        if a[k] != b.get(k):
            return '%s: %s, was %s' % (k, diff(b.get(k), a[k]), diff(a[k], b.get(k)))
    return None


def diff(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) > 3:
        return repr([i for i in x if i not in y])[:300]
    return repr(x)[:300]


def gone(a, b):
    """(module, name) of functions and classes of other modules that were replaced"""
    return sorted(k for k, v in a.items() if b.get(k) != v)


def unusual():
    """another state of everything that can be another"""
    c = decimal.getcontext()
    c.prec, c.rounding, c.capitals = 7, decimal.ROUND_UP, 0
    c.traps[decimal.Inexact] = False
    c.traps[decimal.FloatOperation] = False
    sys.setrecursionlimit(3210)
    sys.set_int_max_str_digits(5000)
    sys.setswitchinterval(0.0123)
    warnings.simplefilter('ignore', ResourceWarning)
    warnings.filterwarnings('ignore', message='never seen')
    os.environ['SOMETHING'] = 'else'
    os.umask(0o077)
    gc.set_threshold(1234, 11, 12)
    logging.getLogger().setLevel(33)
    logging.getLogger('mine').setLevel(17)
    logging.getLogger('mine').addHandler(logging.NullHandler())
    logging.getLogger().addHandler(logging.NullHandler())
    signal.signal(signal.SIGUSR1, lambda *a: None)
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    sys.excepthook = lambda *a: None
    sys.path.append('/nowhere/at/all')
    for limit, value in ((resource.RLIMIT_CORE, 4096), (resource.RLIMIT_NOFILE, 777), (resource.RLIMIT_MEMLOCK, 4096 * 3), (resource.RLIMIT_NPROC, 100000), (resource.RLIMIT_FSIZE, 1 << 40)):
        soft, hard = resource.getrlimit(limit)
        if hard == resource.RLIM_INFINITY or value < hard:
            resource.setrlimit(limit, (value, hard))
    atexit.register(int)
    signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2])
    threading.stack_size(1 << 20)
    socket.setdefaulttimeout(12.5)
    locale.setlocale(locale.LC_NUMERIC, 'C')
