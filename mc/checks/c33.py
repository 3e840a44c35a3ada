"""every failure of the stream is passed on, and the operation can be done again"""
import asyncio, binascii, io, lzma, socket, ssl, struct, zlib
from mc.common import *
from mc.fields import fields

ASSUMPTIONS = ['the stream is a subclass of io.BytesIO (as the documented MemoryStream) whose write or read fails as a whole at a given byte',
               'a failing read of the first byte of a field that begins with ReadByte is left open (documented to give 0), and so are lists of objects (which keep the elements before the failure)']


class Device(OSError):
    pass


class Interrupt(BaseException):
    pass


class Faulty(io.BytesIO):
    """fails when byte `limit` would be written or read"""
    limit = None
    error = Device
    once = False
    part = False        # what is before the failing byte is written (and lost from the reader) first
    short = False       # a read gives what is before the failing byte, the next one fails
    hits = 0
    raised = ()

    def fail(self, end):
        if self.limit is not None and end > self.limit:
            self.hits += 1
            limit = self.limit
            if self.once:
                self.limit = None
            e = self.error(*ARGS.get(self.error, ('byte %d' % limit,)))
            self.raised += (e,)
            raise e

    def write(self, b):
        at = self.tell()
        if self.part and self.limit is not None and at < self.limit < at + len(b):
            super().write(bytes(b)[:self.limit - at])
        self.fail(at + len(b))
        return super().write(b)

    def read(self, n=-1):
        at = self.tell()
        left = len(self.getvalue()) - at
        n = left if n is None or n < 0 else min(n, left)
        if self.limit is not None and at < self.limit < at + n:
            if self.short:
                return super().read(self.limit - at)
            if self.part:
                super().read(self.limit - at)
        self.fail(at + n)
        return super().read(n)


ARGS = {UnicodeDecodeError: ('utf-8', b'\xff', 0, 1, 'byte'), UnicodeEncodeError: ('utf-8', 'x', 0, 1, 'character'), BlockingIOError: (11, 'would block'), InterruptedError: (4, 'interrupted'), KeyError: ('Device',)}
KINDS = [InterruptedError, BlockingIOError, TimeoutError, ConnectionResetError, BrokenPipeError, PermissionError, EOFError, ValueError, UnicodeDecodeError, UnicodeEncodeError, MemoryError, RuntimeError, RecursionError, NotImplementedError, io.UnsupportedOperation, StopIteration, StopAsyncIteration, KeyError, IndexError, LookupError,
         AttributeError, NameError, TypeError, ArithmeticError, OverflowError, ZeroDivisionError, AssertionError, ImportError, BufferError, ReferenceError, SystemError, SyntaxError, binascii.Error, struct.error, zlib.error, lzma.LZMAError, socket.gaierror, ssl.SSLWantReadError, KeyboardInterrupt, SystemExit, GeneratorExit, asyncio.CancelledError, Warning, Exception, BaseException]


def reached(e, s):
    """does the exception carry the failure of the stream"""
    seen = []
    while e is not None and e not in seen:
        if any(e is x for x in s.raised):
            return True
        seen.append(e)
        e = e.__cause__ or e.__context__
    return False


def outcome(f):
    try:
        return 'value', f()
    except Interrupt as e:
        return 'interrupt', e
    except Exception as e:
        return 'error', e
    except BaseException as e:
        if type(e) not in KINDS:
            raise
        return 'error', e


def rw():
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.IO.BinaryReader import BinaryReader
    s = Faulty()
    return s, BinaryWriter(s), BinaryReader(s)


def gen_writes(tier):
    F = fields()
    for i in range(len(F)):
        for j in [None] + list(range(0, len(F), 1 if tier == 'thorough' else 6)):
            yield i, j


def points(wire, j):
    """every byte; long fields behind another field: every 7th and the ends"""
    n = len(wire)
    return range(n) if j is None or n < 70 else sorted(set(range(0, n, 7)) | set(range(12)) | {n - 1})


def run_writes(case, ctx):
    i, j = case
    F = fields()
    name, write, wire = F[i][:3]
    before = b'' if j is None else F[j][2]
    for at in points(wire, j):
        for error, once in ((Device, False), (Interrupt, False), (Device, True)):
            s, w, r = rw()
            if j is not None:
                F[j][1](w)
            s.limit, s.error, s.once = len(before) + at, error, once
            kind, e = outcome(lambda: write(w))
            what = '%s behind %s, byte %d%s' % (name, F[j][0] if j is not None else 'nothing', at, ', once' if once else '')
            if not s.hits:
                raise Violation('%s: nothing tried to write it' % what)
            if kind != ('interrupt' if error is Interrupt else 'error'):
                raise Violation('%s: the failure of the stream was not passed on (%s)' % (what, kind))
            got = s.getvalue()
            ctx.check(got == (before + wire)[:len(got)] and len(before) <= len(got) <= len(before) + at, what, 'left behind')
            # again, on the same writer
            s.limit = None
            s.seek(len(before))
            s.truncate()
            write(w)
            ctx.eq(s.getvalue(), before + wire, what, 'again')
            F[7][1](w)
            ctx.eq(s.getvalue(), before + wire + F[7][2], what, 'and another field')
            ctx.outcome(kind)
    ctx.state(case)


BYTE_FIRST = ('VarInt', 'VarBytes', 'VarString', 'Byte', 'Hashes', 'Array', 'Point', 'Infinity')


def run_reads(case, ctx):
    i, j = case
    F = fields()
    name, write, wire, read, value = F[i][:5]
    before = b'' if j is None else F[j][2]
    for at in points(wire, j):
        for error, once in ((Device, False), (Interrupt, False), (Device, True)):
            s, w, r = rw()
            s.write(before + wire + F[7][2])
            s.seek(0)
            if j is not None:
                F[j][3](r)
            ctx.eq(s.tell(), len(before), 'before')
            s.limit, s.error, s.once = len(before) + at, error, once
            what = '%s behind %s, byte %d%s' % (name, F[j][0] if j is not None else 'nothing', at, ', once' if once else '')
            kind, e = outcome(lambda: read(r))
            if not s.hits:
                raise Violation('%s: nothing tried to read it' % what)
            open_ = error is Device and (at == 0 and name.startswith(BYTE_FIRST) or name.startswith('Array'))
            if not open_ and kind != ('interrupt' if error is Interrupt else 'error'):
                raise Violation('%s: the failure of the stream was not passed on (%s %r)' % (what, kind, e))
            ctx.eq(s.getvalue(), before + wire + F[7][2], what, 'untouched')
            s.limit = None
            s.seek(len(before))
            ctx.eq(read(r), value, what, 'again')
            ctx.eq(s.tell(), len(before + wire), what, 'again')
            ctx.eq(F[7][3](r), F[7][4], what, 'and another field')
            ctx.outcome(kind)
    ctx.state(case)


def gen_kinds(tier):
    F = fields()
    for i in range(len(F)):
        for k in range(len(KINDS)):
            for mode in range(4):
                if tier == 'thorough' or mode in (1, 3) or k % 8 == i % 8:
                    yield i, k, mode


MODES = ((False, False, False), (True, False, False), (False, True, False), (True, True, False))


def run_kinds_write(case, ctx):
    i, k, mode = case
    F = fields()
    name, write, wire = F[i][:3]
    for at in points(wire, None) if len(wire) < 24 else sorted(set(range(12)) | {len(wire) // 2, len(wire) - 1}):
        s, w, r = rw()
        s.limit, s.error = at, KINDS[k]
        s.once, s.part, s.short = MODES[mode]
        what = '%s, %s at byte %d%s%s' % (name, KINDS[k].__name__, at, ', once' * s.once, ', a part written' * s.part)
        kind, e = outcome(lambda: write(w))
        if kind == 'value' or not reached(e, s):
            raise Violation('%s: the failure of the stream was not passed on (%s %r)' % (what, kind, e))
        got = s.getvalue()
        ctx.check(got == wire[:len(got)] and len(got) <= at, what, 'left behind')
        s.limit = None
        s.seek(0)
        s.truncate()
        write(w)
        ctx.eq(s.getvalue(), wire, what, 'again')
        ctx.outcome(kind)
    ctx.state(case)


def run_kinds_read(case, ctx):
    i, k, mode = case
    F = fields()
    name, write, wire, read, value = F[i][:5]
    whole = wire + F[7][2]
    for at in points(wire, None) if len(wire) < 24 else sorted(set(range(12)) | {len(wire) // 2, len(wire) - 1}):
        for short in (False, True):
            s, w, r = rw()
            s.write(whole)
            s.seek(0)
            s.limit, s.error = at, KINDS[k]
            s.once, s.part, _ = MODES[mode]
            s.short = short
            what = '%s, %s at byte %d%s%s%s' % (name, KINDS[k].__name__, at, ', once' * s.once, ', a part read' * s.part, ', after a short read' * s.short)
            kind, e = outcome(lambda: read(r))
            open_ = issubclass(KINDS[k], Exception) and (at == 0 and name.startswith(BYTE_FIRST) or name.startswith('Array'))
            if s.hits and not open_ and (kind == 'value' or not reached(e, s)):
                raise Violation('%s: the failure of the stream was not passed on (%s %r)' % (what, kind, e))
            if not s.hits and not short:
                raise Violation('%s: nothing tried to read it' % what)
            s.limit = None
            s.seek(0)
            ctx.eq(read(r), value, what, 'again')
            ctx.eq(s.tell(), len(wire), what, 'again')
            ctx.outcome(kind)
    ctx.state(case)


FAMILIES = [
    Family('writes', gen_writes, run_writes, 'every field of the alphabet, alone and behind others (quick: every 6th), the stream failing at every byte (error, interruption, error once and then in order), then done again'),
    Family('reads', gen_writes, run_reads, 'the same for reads'),
    Family('kinds-of-writes', gen_kinds, run_kinds_write, lambda t: 'every field, the stream failing at every byte (long fields: 14) with %d kinds of exceptions, lastingly or once, with nothing or a part written; then done again' % len(KINDS)),
    Family('kinds-of-reads', gen_kinds, run_kinds_read, 'the same for reads; also a short read followed by the failure'),
]
