"""counts what a call costs: events of the interpreter (lines, jumps, calls; libraries included), peak memory, reads of a stream"""
import io, sys, tracemalloc

M = sys.monitoring
TOOL = 3


class TooMuch(BaseException):
    pass


class Work:
    events = 0
    peak = 0


def measure(fn, budget, memory=True):
    """(result or exception, Work); TooMuch when more than `budget` events happened"""
    w = Work()
    w.events = 0

    def tick(*a):
        w.events += 1
        if w.events > budget:
            M.set_events(TOOL, 0)
            raise TooMuch
    E = M.events
    M.use_tool_id(TOOL, 'work')
    try:
        for e in (E.LINE, E.JUMP, E.BRANCH, E.PY_START, E.CALL):
            M.register_callback(TOOL, e, tick)
        if memory:
            tracemalloc.start(1)
        M.set_events(TOOL, E.LINE | E.JUMP | E.BRANCH | E.PY_START | E.CALL)
        try:
            r = fn()
        except Exception as e:
            r = e
        except TooMuch as e:
            r = e
        finally:
            M.set_events(TOOL, 0)
            if memory:
                w.peak = tracemalloc.get_traced_memory()[1]
                tracemalloc.stop()
    finally:
        M.free_tool_id(TOOL)
    if isinstance(r, BaseException):
        r.__traceback__ = None
    if w.events > budget:
        r = TooMuch()
    return r, w


class Counting(io.BytesIO):
    """counts reads: all of them, those that found nothing, bytes handed out"""
    calls = empty = given = 0

    def read(self, n=-1):
        b = super().read(n)
        self.calls += 1
        self.given += len(b)
        if not b and n:
            self.empty += 1
        return b
