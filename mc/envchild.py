"""one process of C36: python [flags] envchild.py <settings as JSON> <file for the result>"""
import sys
CFG, OUT = sys.argv[1:3]
sys.path[:0] = ['/repo', __file__.rsplit('/', 2)[0]]
import json
CFG = json.loads(CFG)
sys.argv = CFG.get('argv', ['x'])


def result(r):
    with open(OUT, 'w', encoding='ascii') as f:
        f.write(json.dumps(r + [sorted(ASKED)] if CFG.get('ask') else r))


ASKED = set()


def watch():
    """note which environment variables are asked for by the code under test"""
    import os
    real = os.environ.encodekey

    def encodekey(k):
        f = sys._getframe(1)
        while f:
            if '/neocore/' in f.f_code.co_filename:
                ASKED.add(k)
                break
            # through os, its helpers and anything else but an import by the library of others
            if 'importlib' in f.f_code.co_filename and f.f_code.co_name == '_find_and_load':
                break
            f = f.f_back
        return real(k)

    os.environ.encodekey = encodekey


def main():
    import os
    if CFG.get('ask'):
        watch()
    for s in CFG['prep']:
        PREP[s]()
    sys.setrecursionlimit(5000) if not {'recursion', 'deep'} & set(CFG['prep']) else None
    if CFG.get('modules'):
        import importlib
        for m in CFG['modules']:
            importlib.import_module(m)
    if 'logged' not in CFG['prep']:
        import logging, logzero
        logzero.loglevel(logging.CRITICAL)

    def go():
        from mc import battery
        bad, done = battery.play(CFG['count'], CFG['slow'])
        import neocore
        if not os.path.realpath(neocore.__file__).startswith('/repo/'):
            bad.append('other code: ' + neocore.__file__)
        result([bad, done])
    for s in CFG['prep']:
        if s in AROUND:
            go = AROUND[s](go)
    go()


def decimal_context(**k):
    def f():
        import decimal
        c = decimal.getcontext()
        for n, v in k.items():
            setattr(c, n, v)
        for n, v in k.items():
            setattr(decimal.DefaultContext, n, v)
    return f


def trapped():
    import decimal
    for c in (decimal.getcontext(), decimal.DefaultContext):
        c.traps[decimal.FloatOperation] = True


def float_signals():
    import decimal
    c = decimal.getcontext()
    for t in list(c.traps):
        c.traps[t] = t is decimal.Inexact or c.traps[t]


def seeded():
    import random
    random.seed(0)


def no_gc():
    import gc
    gc.disable()


def much_gc():
    import gc
    gc.set_threshold(1)


def traced():
    def tr(f, e, a):
        return tr
    sys.settrace(tr)


def profiled():
    sys.setprofile(lambda f, e, a: None)


def memory_traced():
    import tracemalloc
    tracemalloc.start(1)


def curve():
    """the bitcoin toolkit as others in the process use it"""
    import bitcoin
    bitcoin.main.privtopub('%064x' % 5)
    bitcoin.random_key()


def other_curve():
    from bitcoin import main
    main.change_curve(23, 7, 1, 1, 0, 7)


def digits():
    sys.set_int_max_str_digits(0)


def few_digits():
    sys.set_int_max_str_digits(640)


def recursion():
    sys.setrecursionlimit(1000)


def switching():
    sys.setswitchinterval(1e-6)


def closed():
    import os
    for n in (0, 1, 2):
        try:
            os.close(n)
        except OSError:
            pass
    n = os.open('/dev/null', os.O_RDWR)
    os.dup2(n, 0); os.dup2(n, 1); os.dup2(n, 2)
    sys.stdin = sys.stdout = sys.stderr = None


def full():
    sys.stdout = open('/dev/full', 'w', buffering=1)


def ascii_out():
    import io
    sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding='ascii')
    sys.stderr = io.TextIOWrapper(io.BytesIO(), encoding='ascii')


def locale_c():
    import locale
    locale.setlocale(locale.LC_ALL, 'C')


def umask():
    import os
    os.umask(0o777)


def cwd():
    import os
    os.chdir('/')


def no_arguments():
    sys.argv = []


def argument_texts():
    sys.argv = ['', '--create-wallet', '\udcff', '-x']


def gone_directory():
    import os, tempfile
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    os.chdir(d)
    os.rmdir(d)


def no_environment():
    import os
    os.environ.clear()


def low_limits():
    import resource
    for l, n in ((resource.RLIMIT_CORE, 0), (resource.RLIMIT_NOFILE, 40), (resource.RLIMIT_MEMLOCK, 0), (resource.RLIMIT_FSIZE, 1 << 20)):
        try:
            resource.setrlimit(l, (n, n))
        except (ValueError, OSError):
            pass


def no_streams():
    sys.stdin = sys.stdout = sys.stderr = sys.__stdin__ = sys.__stdout__ = sys.__stderr__ = None


def blocked_signals():
    import signal
    signal.pthread_sigmask(signal.SIG_BLOCK, signal.valid_signals())


def odd_umask():
    import os
    os.umask(0o222)


def no_main_file():
    m = sys.modules['__main__']
    for n in ('__file__', '__cached__', '__spec__', '__loader__'):
        vars(m).pop(n, None)


def alarmed():
    import signal
    signal.signal(signal.SIGVTALRM, lambda s, f: None)
    signal.setitimer(signal.ITIMER_VIRTUAL, .001, .001)


def in_thread(go):
    def f():
        import threading
        t = threading.Thread(target=go)
        t.start()
        t.join()
    return f


def small_stack(go):
    def f():
        import threading
        threading.stack_size(256 * 1024)
        in_thread(go)()
    return f


def in_fork(go):
    def f():
        import os, neocore.KeyPair, neocore.Cryptography.Crypto
        pid = os.fork()
        if pid == 0:
            try:
                go()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    return f


def in_context(go):
    import contextvars
    return lambda: contextvars.Context().run(go)


def in_loop(go):
    async def main():
        go()

    def f():
        import asyncio
        asyncio.run(main())
    return f


def in_generator(go):
    def g():
        yield go()
    return lambda: next(g())


def in_except(go):
    def f():
        try:
            raise KeyError('x')
        except KeyError:
            go()
    return f


def in_local_context(go):
    def f():
        import decimal
        with decimal.localcontext() as c:
            c.prec = 5
            c.rounding = decimal.ROUND_UP
            go()
    return f


def strict():
    """every warning is an error, but for those of foreign libraries while they are imported"""
    import warnings
    import bitcoin, scrypt, Crypto.Cipher.AES, Crypto.Protocol.KDF, base58, mpmath, ecdsa, logzero, asyncio, multiprocessing
    warnings.simplefilter('error')


def in_warnings(go):
    def f():
        import warnings
        import neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.MerkleTree, neocore.bin.cli
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            go()
    return f


def deep(go):
    def f(n=500):
        return f(n - 1) if n else go()
    return f


def at_exit(go):
    def f():
        import atexit
        atexit.register(go)
    return f


def nothing():
    pass


AROUND = {'thread': in_thread, 'small stack': small_stack, 'fork': in_fork, 'context': in_context, 'loop': in_loop, 'generator': in_generator, 'handler': in_except, 'local decimals': in_local_context,
          'warnings': in_warnings, 'exit': at_exit, 'deep': deep}
PREP = {'few decimals': decimal_context(prec=3), 'many decimals': decimal_context(prec=3000), 'rounding up': decimal_context(rounding='ROUND_UP'), 'rounding down': decimal_context(rounding='ROUND_FLOOR'),
        'small exponents': decimal_context(Emax=20, Emin=-20), 'decimal capitals': decimal_context(capitals=0), 'clamp': decimal_context(clamp=1), 'float traps': trapped, 'inexact traps': float_signals,
        'strict': strict, 'seeded': seeded, 'no gc': no_gc, 'much gc': much_gc, 'traced': traced, 'profiled': profiled, 'memory traced': memory_traced, 'curve': curve, 'digits': digits, 'few digits': few_digits, 'recursion': recursion,
        'switching': switching, 'closed': closed, 'full': full, 'ascii': ascii_out, 'locale': locale_c, 'umask': umask, 'cwd': cwd, 'alarmed': alarmed, 'logged': nothing,
        'no arguments': no_arguments, 'argument texts': argument_texts, 'gone directory': gone_directory, 'no environment': no_environment, 'low limits': low_limits, 'no streams': no_streams, 'blocked signals': blocked_signals, 'odd umask': odd_umask, 'no main file': no_main_file}
for a in AROUND:
    PREP[a] = nothing
main()
