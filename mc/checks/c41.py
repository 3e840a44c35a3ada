"""private keys, passphrases and what is derived from them come out nowhere but in the results"""
import base64, logging, os, sys, tempfile, unicodedata, warnings
from mc import kdf
kdf.install()
from mc.common import *
from mc import breaks

ASSUMPTIONS = ['a secret has come out when five of its bytes in a row (or six characters of a phrase, eight of an encoded key) are found in a text: hexadecimal of either order, base 64, base 58, decimal, Python notations',
               'tracebacks print no local variables (as is the default); memory is not searched',
               'the key text create_wallet returns, and the command line prints in its answer, is the documented result',
               'the scrypt derivation inside NEP-2 operations is the stand-in of the C18 check']
KEYS = [refs.sha256(b'secret key %d' % i) for i in range(4)]
# WIF text beginning with L, last byte zero, first byte zero, public y and public x with a zero first byte
SPECIAL = [refs.sha256(b'special %d' % i) for i in (2, 26, 148, 40, 183)]
# messages whose signature by the first key has a zero byte first in r (the first three), first in s (the next), last in one of them
SHORT = (172, 383, 384, 611, 663, 687, 0, 123)
PHRASES = ['correct horse battery', 'Grüße an Ünsichtbare', 'p\u0061\u0308sswort-long']
MSG = b'pay 5 to you'


# ---- what a secret looks like
def windows(t, n):
    return {t[i:i + n] for i in range(max(1, len(t) - n + 1))}


def looks_of_bytes(b):
    out = set()
    for v in (b, b[::-1]):
        out |= windows(v.hex(), 10)
        out |= windows(str(int.from_bytes(v, 'big')), 16)
        for i in range(len(v) - 4):
            w = v[i:i + 5]
            out.add(repr(w)[2:-1].lower())
            out.add(', '.join(map(str, w)))
            out.add(' '.join('%02x' % x for x in w))
            out.add(':'.join('%02x' % x for x in w))
            out.add(', '.join('0x%x' % x for x in w))
            out.add(''.join('\\x%02x' % x for x in w))
            out.add(w.decode('latin-1').lower())
        for k in range(3):
            out |= windows(base64.b64encode(v[k:]).decode().rstrip('=')[:-1].lower(), 9)
    return out


def looks_of_text(t, n):
    out = windows(t.lower(), min(n, len(t)))
    return out | looks_of_bytes(t.encode()) if len(t) > 9 else out


class Secrets:
    def __init__(self):
        self.looks = {}

    def add(self, what, s, n=6):
        for x in (looks_of_bytes(bytes(s)) if not isinstance(s, str) else looks_of_text(s, n)):
            self.looks.setdefault(x, what)
        return self

    def key(self, k, what='the private key'):
        self.add(what, k).add('the WIF text', refs.wif(k), 8)
        return self

    def phrase(self, p):
        for form in (p, unicodedata.normalize('NFC', p), unicodedata.normalize('NFD', p)):
            self.add('the passphrase', form)
            self.add('the passphrase', ascii(form)[1:-1])
        return self

    def derived(self, k, p):
        d = kdf.ref(unicodedata.normalize('NFC', p).encode(), refs.hash256(address_of(k).encode())[:4])
        self.add('a derived key', d[:32]).add('a derived key', d[32:])
        self.add('a masked key', bytes(a ^ b for a, b in zip(k, d)))
        return self

    def nonce(self, k, sig, msg=MSG):
        n = refs.P256.n
        r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
        z = int.from_bytes(refs.sha256(msg), 'big')
        v = (z + r * int.from_bytes(k, 'big')) * pow(s, -1, n) % n
        for x in (v, n - v):
            self.add('the nonce', x.to_bytes(32, 'big'))
        return self

    def find(self, text):
        low = text.lower()
        for n in sorted({len(x) for x in self.looks}):
            for i in range(len(low) - n + 1):
                w = self.looks.get(low[i:i + n])
                if w:
                    return '%s (%r in %r)' % (w, text[i:i + n], text[max(0, i - 60):i + 100])
        return None


def address_of(k):
    return refs.key_address(refs.pub(int.from_bytes(k, 'big')))


# ---- what is watched
class Watch:
    """texts: everything written, logged, warned or raised; acts: files, processes, connections"""
    current = None

    def __init__(self):
        self.texts, self.acts = [], []


def hook(event, args):
    w = Watch.current
    if w is None:
        return
    if event == 'open':
        path, mode, flags = (list(args) + [None] * 3)[:3]
        writing = isinstance(mode, str) and any(c in mode for c in 'wax+') or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
        if writing and path not in ('/dev/null', '/dev/tty'):
            w.acts.append('opens %r for writing' % (path,))
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork', 'os.forkpty', 'socket.connect', 'socket.bind', 'socket.sendto', 'socket.getaddrinfo', 'os.putenv', 'os.mkdir', 'os.rename', 'os.link', 'os.symlink',
                   'os.truncate', 'os.setxattr', 'sqlite3.connect', 'syslog.syslog', 'syslog.openlog', 'shutil.copyfile', 'os.kill', 'webbrowser.open', 'urllib.Request'):
        w.acts.append('%s %r' % (event, args[:2]))


class Text:
    """a text stream that keeps what is written"""
    encoding, errors, closed = 'utf-8', 'strict', False

    def __init__(self, keep):
        self.keep = keep

    def write(self, t):
        self.keep.append(t)
        return len(t)

    def writelines(self, ts):
        self.keep.extend(ts)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no file')


def chain(e, seen=()):
    """the texts of an exception and of all behind it"""
    out = []
    while e is not None and not any(e is s for s in seen):
        seen += (e,)
        try:
            out.append('%s: %s' % (type(e).__name__, e))
        except Exception:
            pass
        out.extend(map(str, getattr(e, '__notes__', ())))
        if e.__cause__ is not None:
            out += chain(e.__cause__, seen)
        e = e.__context__
    return out


_ready = []


def prepare():
    """once in a child: every logger passes everything on to the watch"""
    if _ready:
        return
    _ready.append(1)
    logging.disable(logging.NOTSET)
    logging.Logger.isEnabledFor = lambda self, level: True

    def handle(self, record):
        w = Watch.current
        if w is not None:
            try:
                w.texts.append(record.getMessage())
            except Exception:
                w.texts.append('%r %r' % (record.msg, record.args))
            if record.exc_info and record.exc_info[1] is not None:
                w.texts.extend(chain(record.exc_info[1]))
            w.texts.extend('%s=%r' % (k, v) for k, v in record.__dict__.items() if k not in logging.LogRecord('', 0, '', 0, '', (), None).__dict__)
            if record.args:
                w.texts.append(repr(record.args))
    logging.Logger.handle = handle
    sys.addaudithook(hook)


def watched(f, fault=None):
    """f() under watch -> (watch, ('value', v) or ('raised', e), stdout texts)"""
    w = Watch()
    out, err = [], []
    old = sys.stdout, sys.stderr, warnings.showwarning
    env = dict(os.environ)
    fd, path = tempfile.mkstemp(dir=os.environ.get('VERIF_SCRATCH'))
    keep = os.dup(1), os.dup(2)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout, sys.stderr = Text(out), Text(err)
    warnings.showwarning = lambda m, c, fn, ln, file=None, line=None: w.texts.append(str(m))
    Watch.current = w
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('always')
            warnings.showwarning = lambda m, c, fn, ln, file=None, line=None: w.texts.append(str(m))
            try:
                r = 'value', (f() if fault is None else fault(f))
            except (Exception, SystemExit) as e:
                r = 'raised', e
                w.texts.extend(chain(e))
    finally:
        Watch.current = None
        sys.stdout, sys.stderr, warnings.showwarning = old
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        for x in keep:
            os.close(x)
        with os.fdopen(fd, 'rb') as g:
            g.seek(0)
            w.texts.append(g.read().decode('utf-8', 'replace'))
        os.unlink(path)
    w.texts.extend(err)
    now = dict(os.environ)
    w.texts.extend('%s=%s' % kv for kv in now.items() if env.get(kv[0]) != kv[1])
    return w, r, out


# ---- operations on secrets
def damaged(t, i=None):
    A = refs.B58
    i = len(t) // 2 if i is None else i
    return t[:i] + A[(A.index(t[i]) + 7) % 58] + t[i + 1:]


def ops(ki, pi):
    """[(name, secrets, call, printed secret allowed)]"""
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography import Helper
    from neocore.Cryptography import ECCurve as EC
    from neocore.Cryptography.Crypto import Crypto, CryptoInstance
    from neocore.bin import cli
    k, p = (KEYS + SPECIAL)[ki], PHRASES[pi]
    ik = int.from_bytes(k, 'big')
    wif, nep2 = refs.wif(k), refs.nep2(ik, p, kdf.ref)
    S = Secrets().key(k)
    SP = Secrets().key(k).phrase(p).derived(k, p)
    O = []

    def o(name, call, secrets=S, printed=None):
        O.append((name, secrets, call, printed))
    for t in (bytes, bytearray):
        o('a key pair from %s' % t.__name__, lambda t=t: KeyPair(t(k)))
    o('a key pair of 96 bytes', lambda: KeyPair(refs.uncompressed(refs.pub(ik))[1:] + k))
    o('a key pair of 104 bytes', lambda: KeyPair(bytes(8) + refs.uncompressed(refs.pub(ik))[1:] + k))
    o('a key pair of 96 bytes, no point', lambda: KeyPair(k + k + k))
    for n in (0, 1, 16, 31, 33, 64, 95, 97):
        o('a key pair of %d bytes' % n, lambda n=n: KeyPair((k * 4)[:n]))
    o('a key pair from text', lambda: KeyPair(k.hex()))
    o('a key pair from hexadecimal', lambda: KeyPair(k.hex().encode()))
    o('a key pair from half the hexadecimal', lambda: KeyPair(k.hex()[:32]))
    o('a key pair from a number', lambda: KeyPair(ik))
    o('a key pair from a list', lambda: KeyPair(list(k)))
    o('a key pair from a view', lambda: KeyPair(memoryview(k)))
    o('export', lambda: KeyPair(k).Export())
    o('address', lambda: KeyPair(k).GetAddress())

    def shown(*f):
        def go():
            x = KeyPair(k)
            for g in f:
                try:
                    print(g(x))
                except Exception as e:
                    print(*chain(e))
                if sys.stdout.keep:
                    Watch.current.texts.extend(sys.stdout.keep)
        return go
    o('the key pair shown', shown(str, repr, format, lambda x: '%s %r' % (x, x), lambda x: f'{x} {x!r} {x!a}', ascii, lambda x: str([x, {1: x}]), lambda x: x.PublicKey, lambda x: x.PublicKeyHash, lambda x: [x.PublicKey, x.PublicKeyHash], lambda x: x.GetAddress(), lambda x: dir(x)))
    o('wrong uses of the key pair', shown(lambda x: x.ExportNEP2(), lambda x: x.nothing, lambda x: x + 1, lambda x: x < 5, lambda x: x[0], lambda x: x(), lambda x: int(x), lambda x: len(x), lambda x: bytes(x), lambda x: hash(x) and None, lambda x: x == k and None, lambda x: Crypto.Sign(b'00', x), lambda x: Crypto.ToAddress(x), lambda x: KeyPair(x)))
    o('WIF', lambda: KeyPair.PrivateKeyFromWIF(wif))
    for name, bad in (('damaged', damaged(wif)), ('damaged first', damaged(wif, 0)), ('damaged last', damaged(wif, 51)), ('short', wif[:-1]), ('long', wif + 'x'), ('not base 58', wif[:20] + '0' + wif[21:]), ('with a blank', wif[:20] + ' ' + wif[21:]),
                      ('not ASCII', wif[:30] + 'é' + wif[31:]), ('bytes', wif.encode()), ('a list', list(wif)), ('uncompressed', refs.b58check(b'\x80' + k)), ('without its first', wif[1:]), ('key as hexadecimal', k.hex()), ('another version', damaged(wif, 1)),
                      ('hexadecimal of 52', k.hex()[:52]), ('raw key', k)):
        o('WIF %s' % name, lambda bad=bad: KeyPair.PrivateKeyFromWIF(bad))
    o('NEP-2 export', lambda: KeyPair(k).ExportNEP2(p), SP)
    o('NEP-2 import', lambda: KeyPair.PrivateKeyFromNEP2(nep2, p), SP)
    o('NEP-2 with another phrase', lambda: KeyPair.PrivateKeyFromNEP2(nep2, p + 'x'), Secrets().key(k).phrase(p + 'x'))
    for name, bad in (('damaged', damaged(nep2)), ('short', nep2[:-1]), ('long', nep2 + 'x'), ('not base 58', nep2[:20] + '0' + nep2[21:]), ('bytes', nep2.encode()), ('nothing', ''), ('none', None), ('the WIF', wif), ('not ASCII', nep2[:9] + 'é' + nep2[10:])):
        o('NEP-2 %s' % name, lambda bad=bad: KeyPair.PrivateKeyFromNEP2(bad, p), SP)
    for name, bad in (('bytes', p.encode()), ('a list', [p]), ('unpaired surrogate', p + '\ud800'), ('none', None), ('a number', 1234567890123456)):
        o('NEP-2 export, phrase %s' % name, lambda bad=bad: KeyPair(k).ExportNEP2(bad), SP)
        o('NEP-2 import, phrase %s' % name, lambda bad=bad: KeyPair.PrivateKeyFromNEP2(nep2, bad), SP)
    o('NEP-2 export, one character', lambda: KeyPair(k).ExportNEP2('x'))

    def sign(msg, key, inst=False):
        def go():
            s = (CryptoInstance() if inst else Crypto).Sign(msg, key)
            return bytes(s)
        return go
    o('sign', sign(MSG.hex(), k))
    o('sign with hexadecimal', sign(MSG.hex(), k.hex()))
    o('sign with a bytearray', sign(MSG.hex(), bytearray(k)))
    o('sign by an instance', sign(MSG.hex(), k, True))
    o('sign with a number', sign(MSG.hex(), ik))
    o('sign no hexadecimal', sign('no hex', k))
    o('sign none', sign(None, k))
    for name, bad in (('short', k[:31]), ('long', k + b'1'), ('short hexadecimal', k.hex()[:-1]), ('long hexadecimal', k.hex() + '0'), ('0x', '0x' + k.hex()), ('upper', k.hex().upper()), ('no hexadecimal', k.hex()[:-1] + 'x'), ('list', list(k)), ('WIF', wif), ('damaged WIF', damaged(wif)), ('hexadecimal bytes', k.hex().encode())):
        o('sign with a key %s' % name, sign(MSG.hex(), bad))
    o('sign and verify', lambda: Crypto.VerifySignature(MSG.hex(), Crypto.Sign(MSG.hex(), k), refs.compressed(refs.pub(ik))))
    o('verify with the private key', lambda: Crypto.VerifySignature(MSG.hex(), bytes(64), k))
    o('toolkit public key', lambda: EC.ECDSA.secp256k1().calcpub(ik))
    o('toolkit signature', lambda: EC.ECDSA.secp256k1().sign(int.from_bytes(refs.sha256(MSG), 'big'), ik, int.from_bytes(KEYS[(ki + 1) % 4], 'big')), Secrets().key(k).add('the nonce', KEYS[(ki + 1) % 4]))
    o('toolkit multiple', lambda: EC.ECDSA.secp256r1().G * ik)
    o('toolkit public key of a text', lambda: EC.ECDSA.secp256k1().calcpub(k.hex()))
    o('xor', lambda: Helper.xor_bytes(k, KEYS[(ki + 1) % 4]), Secrets().key(k).add('the other', KEYS[(ki + 1) % 4]))
    o('xor of other lengths', lambda: Helper.xor_bytes(k, KEYS[(ki + 1) % 4][:-1]), Secrets().key(k).add('the other', KEYS[(ki + 1) % 4]))
    o('xor of a text', lambda: Helper.xor_bytes(k.hex(), k))
    o('base 256', lambda: Helper.base256_encode(ik, 32))
    return O


MAIN = ('a key pair from bytes', 'export', 'address', 'the key pair shown', 'WIF', 'WIF damaged', 'NEP-2 export', 'NEP-2 import', 'NEP-2 with another phrase', 'sign', 'sign with hexadecimal', 'sign and verify', 'toolkit public key', 'toolkit signature', 'toolkit multiple')


def gen_special(t):
    import bitcoin, ecdsa, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils
    for ki in range(len(KEYS), len(KEYS) + len(SPECIAL)):
        for pi in range(len(PHRASES) if t == 'thorough' else 1):
            for n, name in enumerate(names(ki, pi)):
                if t == 'thorough' or name in MAIN:
                    yield 'key', ki, (ki + pi) % len(PHRASES), n
    for i in range(0, 2048 if t == 'thorough' else 256, 32):
        yield 'messages', i, i + 32, 0
    for m in SHORT:
        yield 'messages', m, m + 1, 0


def run_special(case, ctx):
    what, a, b, n = case
    prepare()
    with kdf.fast():
        if what == 'key':
            name, S, call, printed = ops(a, b)[n]
            w, r, out = watched(call)
            judge('%s (key %d)' % (name, a), S, w, r, out)
            ctx.state(name, a, b)
            ctx.outcome(r[0])
            return
        from neocore.Cryptography.Crypto import Crypto
        k = KEYS[0]
        S = Secrets().key(k)
        for m in range(a, b):
            msg = b'%c%c%c' % (m >> 16, m >> 8 & 255, m & 255)
            w, r, out = watched(lambda: bytes(Crypto.Sign(msg.hex(), k.hex())))
            judge('signing %r' % msg, S, w, r, out)
            judge('signing %r' % msg, Secrets().nonce(k, r[1], msg), w, r, out)
            ctx.state(m)
            ctx.outcome('%d%d' % (not r[1][0], not r[1][32]))
            ctx.transitions += 1


def names(ki, pi):
    return [x[0] for x in ops(ki, pi)]


def gen_ops(t):
    import bitcoin, ecdsa, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils
    from mc.engine import in_child
    if not in_child(kdf.works):
        raise Violation('the key derivation cannot be stood in for')
    for ki in range(len(KEYS) if t == 'thorough' else 2):
        for pi in range(len(PHRASES) if t == 'thorough' else 2):
            if t != 'thorough' and ki != pi:
                continue
            for n, _ in enumerate(names(ki, pi)):
                yield ki, pi, n


def judge(what, S, w, r, out, printed=None):
    if w.acts:
        raise Violation('%s: %s' % (what, w.acts[0]))
    for t in w.texts + [''.join(out)]:
        f = S.find(t)
        if f:
            raise Violation('%s: %s came out' % (what, f))


class Fault:
    """every exception handler is reached: an ordinary exception is raised at the n-th passing of a place"""

    def __init__(self, key, nth, kind):
        self.t = breaks.Trace(key, nth)
        self.kind = kind
        self.t.make = lambda where: kind('fault')

    def __call__(self, f):
        old = sys.gettrace()
        sys.settrace(self.t)
        try:
            return f()
        finally:
            sys.settrace(old)


def run_ops(case, ctx):
    ki, pi, n = case
    prepare()
    with kdf.fast():
        name, S, call, printed = ops(ki, pi)[n]
        seen = breaks.record(lambda: quiet(call))
        places = [(None, 0, None)] + [(key, nth, kind) for key, nth in breaks.targets(seen, False) if key[3] == 'n' and nth == 1 for kind in (ValueError, TypeError)]
        places += [(None, 1, None)]
        for key, nth, kind in places:
            _, S, call, printed = ops(ki, pi)[n] if key is None else (0, S, call, 0)
            w, r, out = watched(call, Fault(key, nth, kind) if key else None)
            what = name if key is None else '%s, %s at %s' % (name, kind.__name__, breaks.label(key))
            if name.startswith(('sign', 'toolkit sig')) and r[0] == 'value' and isinstance(r[1], bytes) and len(r[1]) == 64:
                S = Secrets().key(KEYS[ki]).nonce(KEYS[ki], r[1])
            judge(what, S, w, r, out)
            ctx.state(what)
            ctx.outcome(r[0])
            ctx.transitions += 1 + len(w.texts)


def quiet(f):
    w, r, out = watched(f)
    if r[0] == 'raised':
        raise ValueError('it does')
    return r[1]


# ---- random keys and wallets: what they are made of, and where they come out
def gen_wallets(t):
    import bitcoin, ecdsa, neocore.KeyPair, neocore.bin.cli
    for i in range(6 if t == 'thorough' else 3):
        for how in ('random_key', 'create_wallet', 'main', 'main, key unusable'):
            yield i, how


def run_wallets(case, ctx):
    i, how = case
    prepare()
    from neocore.bin import cli
    from neocore.Cryptography import Helper
    import json
    from Crypto import Random
    k = refs.sha256(b'random %d' % i)
    entropy = refs.sha256(b'entropy %d' % i)
    S = Secrets().key(k).add('the entropy', entropy)
    given = []

    def randbytes(n):
        given.append(n)
        return (k if n == 32 else k * 9)[:n]
    old = Random.get_random_bytes, os.urandom, sys.argv
    Random.get_random_bytes, os.urandom = randbytes, lambda n: (entropy * (n // 32 + 1))[:n]
    try:
        if how == 'random_key':
            w, r, out = watched(Helper.random_key)
            if r[0] != 'value':
                raise Violation('random_key: %r' % (r[1],))
            S.key(bytes.fromhex(r[1].decode()))
            judge(how, S, w, r, out)
        elif how == 'create_wallet':
            w, r, out = watched(cli.create_wallet)
            judge(how, S, w, r, out)
            ctx.eq((r[1]['private_key'], r[1]['address']), (refs.wif(k), address_of(k)), case)
        else:
            sys.argv = ['np-utils', '--create-wallet']
            if how == 'main, key unusable':
                Random.get_random_bytes = lambda n: b'\xff' * 32
                S = Secrets().key(b'\xff' * 8 + k[:24])
            w, r, out = watched(cli.main)
            text = ''.join(out)
            if how != 'main, key unusable':
                ctx.eq(r[0], 'value', case)
                ctx.eq(text.count(refs.wif(k)), 1, case, 'printed once')
                ctx.eq(json.loads(text), {'private_key': refs.wif(k), 'address': address_of(k)}, case)
                text = text.replace(refs.wif(k), '')
            judge(how, S, w, r, [text])
    finally:
        Random.get_random_bytes, os.urandom, sys.argv = old
    ctx.state(case)


FAMILIES = [
    Family('operations', gen_ops, run_ops, 'every operation that is given a key or a phrase, with right, damaged and unsuitable ones, done twice, and with an ordinary exception raised at every line it passes: everything written, logged (at any level), warned, raised (with all exceptions behind it) is searched for every form of the secrets; no file is written, no process or connection opened', fresh=True),
    Family('special', gen_special, run_special, 'the main operations with five further keys (leading and trailing zero bytes, short public coordinates, either first letter of the WIF text), and signing 256 messages (thorough: 2048) and others whose signature has r or s with zero bytes first', fresh=True),
    Family('wallets', gen_wallets, run_wallets, 'random keys and wallets with given randomness, by function and by command line', fresh=True),
]
