"""A controlled scheduler for two real threads: a schedule is a list of segment lengths.

Thread 0 runs for segment 0 (in scheduling points), then thread 1 for segment 1, and so on; when the list is used up, the
running thread finishes, then the other does. Scheduling points are the source lines (or byte code instructions) that a
thread executes inside the library.
"""
import sys, threading

LIB = '/repo/neocore/'
FOREVER = 1 << 60


class Stop(BaseException):
    pass


def run(bodies, segments, opcodes=False, record=None):
    """run the callables under the schedule; returns ([points executed], [exception or None]);
    record: a list that receives the place of every point of thread 0"""
    gates = [threading.Lock(), threading.Lock()]
    for g in gates:
        g.acquire()
    todo = list(segments)
    budget = [todo.pop(0) if todo else FOREVER, FOREVER]
    points = [0, 0]
    done = [False, False]
    errors = [None, None]
    free = []

    def switch(t):
        o = 1 - t
        if done[o]:
            budget[t] = FOREVER
            return
        budget[o] = todo.pop(0) if todo else FOREVER
        budget[t] = FOREVER
        try:
            gates[o].release()
        except RuntimeError:
            pass
        # when the other thread is blocked on something this one holds, both go on unscheduled
        still, last = 0, None
        while not gates[t].acquire(timeout=0.04):
            f = sys._current_frames().get(ts[o].ident)
            here = f and (id(f), f.f_lasti)
            still = still + 1 if here == last else 0
            last = here
            if still >= 5:
                free.append(True)
                break
        if todo:
            budget[t] = todo.pop(0)

    def thread(t):
        def local(frame, event, arg):
            if event == ('opcode' if opcodes else 'line') and not free:
                points[t] += 1
                if record is not None and t == 0:
                    record.append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti))
                budget[t] -= 1
                if budget[t] <= 0:
                    switch(t)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(LIB):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        gates[t].acquire()
        sys.settrace(trace)
        try:
            bodies[t]()
        except BaseException as e:
            errors[t] = e
        finally:
            sys.settrace(None)
            done[t] = True
            try:
                gates[1 - t].release()
            except RuntimeError:
                pass

    ts = [threading.Thread(target=thread, args=(t,), daemon=True) for t in (0, 1)]
    for t in ts:
        t.start()
    gates[0].release()
    for t in ts:
        t.join(60)
        if t.is_alive():
            raise RuntimeError('a thread did not finish')
    return points, errors
