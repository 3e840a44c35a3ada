"""A switchable stand-in for the (slow) scrypt key derivation. Import before neocore.

`install()` wraps every scrypt entry point the process could use; while `fast()` is active they answer with a quick
function of all their parameters, so that a wrong parameter, salt or password still shows. refs.nep2/unnep2 take
kdf=`ref` for the same function with the parameters NEP-2 prescribes. `used` counts the calls that were stood in for.
"""
import contextlib, hashlib
import scrypt

used = 0
_on = False
_real = scrypt.hash
_hreal = hashlib.scrypt


def _b(x):
    return x.encode('utf-8') if isinstance(x, str) else bytes(x)


def _fn(pw, salt, n, r, p, size):
    h = b''.join(len(x).to_bytes(4, 'big') + x for x in (_b(pw), _b(salt), b'%d,%d,%d,%d' % (n, r, p, size)))
    out = b''
    while len(out) < size:
        out += hashlib.sha512(b'stand-in%d' % len(out) + h).digest()
    return out[:size]


def ref(pw, salt):
    return _fn(pw, salt, 16384, 8, 8, 64)


def _scrypt_hash(password, salt, N=1 << 14, r=8, p=1, buflen=64, **kw):
    global used
    if not _on:
        return _real(password, salt, N=N, r=r, p=p, buflen=buflen, **kw)
    used += 1
    return _fn(password, salt, N, r, p, buflen)


def _hashlib_scrypt(password, *, salt=None, n=None, r=None, p=None, maxmem=0, dklen=64):
    global used
    if not _on:
        return _hreal(password, salt=salt, n=n, r=r, p=p, maxmem=maxmem, dklen=dklen)
    used += 1
    return _fn(password, salt, n, r, p, dklen)


def install():
    from mc import refs
    refs.kdf_real = lambda pw, salt: _hreal(pw, salt=bytes(salt), n=16384, r=8, p=8, dklen=64, maxmem=1 << 26)
    scrypt.hash = _scrypt_hash
    hashlib.scrypt = _hashlib_scrypt
    try:
        from Crypto.Protocol import KDF
        creal = KDF.scrypt

        def _crypto_scrypt(password, salt, key_len, N, r, p, num_keys=1):
            global used
            if not _on or num_keys != 1:
                return creal(password, salt, key_len, N, r, p, num_keys)
            used += 1
            return _fn(password, salt, N, r, p, key_len)
        KDF.scrypt = _crypto_scrypt
    except Exception:
        pass


@contextlib.contextmanager
def fast():
    global _on
    before, _on = _on, True
    try:
        yield
    finally:
        _on = before


_probe = None


def works():
    """does the code under test go through the stand-in?"""
    global _probe
    if _probe is None:
        from neocore.KeyPair import KeyPair
        from mc import refs
        kp = KeyPair(bytes(31) + b'\x07')
        def decrypts(ref):
            try:
                KeyPair.PrivateKeyFromNEP2(refs.nep2(7, 'probe', ref), 'probe')
                return True
            except Exception:
                return False
        with fast():
            a = used
            try:
                kp.ExportNEP2('probe')
            except Exception:
                pass
            b = used
            dec = decrypts(ref)
            c = used
        # an operation that fails before any derivation fails with the real one too
        _probe = b > a and (dec or c > b or not decrypts(None))
    return _probe
