"""The explorer: enumerates every case of every family of a check on the real code.

A family is a finite, completely enumerated space: gen(tier) yields JSON-serialisable cases, run(case, ctx)
executes one case (one trace of the reference model) on the code under test and compares after every step.
The cases are split over forked workers; `fresh=True` families run every case in a newly forked child of the
untouched parent process, so that a case is a complete process history.
"""
import hashlib, json, os, pickle, resource, signal, sys, time, traceback, mmap, struct

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 100          # CPU seconds one case may take before it counts as not terminating
WALL_LIMIT = 240         # the same in wall time
IDLE_LIMIT = 80          # seconds without any work of the process (blocked code)
MEM_LIMIT = 6 << 30


CLOCK = [0, 0, 0]        # start of the case, last time it was seen working, its CPU time then


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def enc(x):
    """bytes <-> JSON"""
    if isinstance(x, (bytes, bytearray)):
        return {'hex': bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {'dict': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, float):
        return {'float': struct.pack('>d', x).hex()}
    return x


def dec(x):
    if isinstance(x, list):
        return tuple(dec(i) for i in x)
    if isinstance(x, dict):
        if 'hex' in x:
            return bytes.fromhex(x['hex'])
        if 'float' in x:
            return struct.unpack('>d', bytes.fromhex(x['float']))[0]
        return {dec(k): dec(v) for k, v in x['dict']}
    return x


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n // 2] + ' ...[%d]... ' % len(r) + r[-n // 3:]


class Family:
    def __init__(self, name, gen, run, bound, fresh=False):
        self.name, self.gen, self.run, self.bound, self.fresh = name, gen, run, bound, fresh


class Ctx:
    def __init__(self, known_keys=()):
        self.fam = None
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.known_keys = set(known_keys)
        self.known_hits = {}
        self.per = {}
        self.outcomes = {}
        self.samples = {}
        self.scratch = {}       # per worker memo of the checks' references

    def state(self, *x):
        try:
            self.states.add(hash((self.fam,) + x))
        except TypeError:
            self.states.add(hash((self.fam, repr(x))))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, label):
        k = (self.fam, label)
        self.outcomes[k] = self.outcomes.get(k, 0) + 1

    def eq(self, actual, expected, *what):
        """one transition: the code's answer against the reference's"""
        self.transitions += 1
        self.state(what, expected if isinstance(expected, (bytes, str, int)) else repr(expected))
        if type(actual) is not type(expected) and isinstance(actual, (bytes, bytearray)) and isinstance(expected, (bytes, bytearray)):
            ok = bytes(actual) == bytes(expected)
        else:
            ok = actual == expected
        if ok is not True:
            raise Violation('%s: got %s, expected %s' % (short(what), short(actual), short(expected)))

    def check(self, cond, *what):
        self.transitions += 1
        self.state(what)
        if not cond:
            raise Violation(short(what, 600))

    def refused(self, fn, *what, only=Exception):
        """fn must raise"""
        self.transitions += 1
        self.state('refused', what)
        try:
            v = fn()
        except only as e:
            return e
        raise Violation('%s: not refused, gave %s' % (short(what), short(v)))

    def known(self, key, detail):
        """a listed finding; anything unlisted is a violation"""
        if key not in self.known_keys:
            raise Violation('%s (%s)' % (detail, key))
        self.transitions += 1
        if key not in self.known_hits:
            self.known_hits[key] = detail


def children():
    """has this process any? (it may be waiting for one)"""
    try:
        with open('/proc/self/task/%d/children' % os.getpid()) as f:
            return bool(f.read().strip())
    except OSError:
        return True


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass
    def hang(sig, frame):
        if sig == signal.SIGVTALRM:
            raise Hang('CPU')
        now, work = time.monotonic(), time.process_time()
        if work - CLOCK[2] > 0.3 or children():
            CLOCK[1:] = now, work
        if now - CLOCK[0] > WALL_LIMIT or now - CLOCK[1] > IDLE_LIMIT:
            raise Hang('wall clock')
    signal.signal(signal.SIGVTALRM, hang)
    signal.signal(signal.SIGALRM, hang)


def run_case(fam, case, ctx):
    """None, or the description of what failed"""
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    CLOCK[:] = time.monotonic(), time.monotonic(), time.process_time()
    signal.setitimer(signal.ITIMER_REAL, 10, 10)
    try:
        fam.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Hang as e:
        return 'did not finish within the %s limit' % e
    except MemoryError:
        return 'ran out of memory'
    except (KeyboardInterrupt,):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-6:]))
        return 'unexpected %s: %s [%s]' % (type(e).__name__, short(str(e)), where)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def in_child(fn):
    """run fn() in a forked child, return its pickled result (None when it died)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 9
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def fresh_case(fam, case, known):
    def go():
        limits()
        c = Ctx(known); c.fam = fam.name
        msg = run_case(fam, case, c)
        c.scratch = {}
        return msg, c
    got = in_child(go)
    if got is None:
        c = Ctx(known); c.fam = fam.name
        return 'the process running this case died', c
    return got


def merge(a, b):
    a.states |= b.states
    a.transitions += b.transitions
    for k, v in b.known_hits.items():
        a.known_hits.setdefault(k, v)
    for k, v in b.outcomes.items():
        a.outcomes[k] = a.outcomes.get(k, 0) + v


def worker(families, tier, seed, me, n, known, stop):
    limits()
    ctx = Ctx(known)
    fails = []
    errors = []
    # first the cases that start from an untouched process: the others are run in this one
    for fi, fam in sorted(enumerate(families), key=lambda x: not x[1].fresh):
        t0 = time.time()
        s0, tr0, cases = len(ctx.states), ctx.transitions, 0
        ctx.fam = fam.name
        it = enumerate(fam.gen(tier))
        while True:
            try:
                i, case = next(it)
            except StopIteration:
                break
            if (i + seed) % n != me:
                continue
            if stop[0]:
                break
            cases += 1
            if fam.fresh:
                msg, c = fresh_case(fam, case, known)
                merge(ctx, c)
            else:
                msg = run_case(fam, case, ctx)
            ctx.traces += 1
            ctx.samples.setdefault(fam.name, short(case, 160))
            if msg is not None:
                fails.append((fi, i, enc(case), msg))
                stop[0] = 1
                break
        ctx.per[fam.name] = [cases, len(ctx.states) - s0, ctx.transitions - tr0, time.time() - t0]
        if fails or stop[0]:
            break
    return {'fails': fails, 'states': ctx.states, 'transitions': ctx.transitions, 'traces': ctx.traces, 'per': ctx.per,
            'known': ctx.known_hits, 'samples': ctx.samples, 'outcomes': ctx.outcomes}


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        return {k['key']: k for k in json.load(f)['known'] if k['property'] == pid}


def replay(path, families):
    with open(path) as f:
        rec = json.load(f)
    known = load_known(rec['property'])
    by = {f.name: f for f in families}
    limits()
    ctx = Ctx(known)
    msg = None
    hist = rec.get('history')
    if hist:
        n, me, seed, tier = hist['workers'], hist['worker'], hist['seed'], hist['tier']
        for fi, fam in enumerate(families):
            for i, case in enumerate(fam.gen(tier)):
                if (i + seed) % n != me or fam.fresh:
                    continue
                ctx.fam = fam.name
                msg = run_case(fam, case, ctx)
                if msg:
                    break
                if fam.name == rec['family'] and i == rec['index']:
                    break
            if msg or fam.name == rec['family']:
                break
    else:
        ctx.fam = rec['family']
        msg = run_case(by[rec['family']], dec(rec['case']), ctx)
    print('replay: %s' % (msg or 'the property holds on this case'))
    return 1 if msg else 0


def run_property(pid, families, assumptions):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nproc = int(os.environ.get('VERIF_PROCS', 0)) or max(1, min(8, os.cpu_count() or 1))
    known = load_known(pid)
    stop = mmap.mmap(-1, 1)
    stop[0] = 0
    pids = []
    sys.stdout.flush(); sys.stderr.flush()
    for me in range(nproc):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(r)
                data = pickle.dumps(worker(families, tier, seed, me, nproc, set(known), stop))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                stop[0] = 1
                code = 9
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        os.close(w)
        pids.append((p, r))
    res = []
    broken = 0
    # read all pipes; after a failure give the other workers a moment, then end them
    import select
    bufs = {r: [] for _, r in pids}
    open_ = {r for _, r in pids}
    t_stop = None
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 0.5)
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r].append(d)
            else:
                open_.discard(r)
        if stop[0] and t_stop is None:
            t_stop = time.time()
        if t_stop and time.time() - t_stop > 20:
            for p, r in pids:
                if r in open_:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
    for p, r in pids:
        _, status = os.waitpid(p, 0)
        os.close(r)
        try:
            res.append(pickle.loads(b''.join(bufs[r])))
        except Exception:
            res.append(None)
            if not (os.WIFSIGNALED(status) and t_stop):
                broken += 1
    fails = sorted((f + (w,) for w, x in enumerate(res) if x for f in x['fails']), key=lambda f: f[:2])
    if broken and not fails:
        print('ERROR: %d workers died' % broken)
        return 3
    states, hits, outcomes, samples = set(), {}, {}, {}
    transitions = traces = 0
    per = {}
    for x in res:
        if not x:
            continue
        states |= x['states']
        transitions += x['transitions']
        traces += x['traces']
        for k, v in x['known'].items():
            hits.setdefault(k, v)
        for k, v in x['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in x['samples'].items():
            samples.setdefault(k, v)
        for k, v in x['per'].items():
            q = per.setdefault(k, [0, 0, 0, 0.0])
            for j in range(3):
                q[j] += v[j]
            q[3] = max(q[3], v[3])
    fam_out = [{'family': f.name, 'bound': f.bound(tier) if callable(f.bound) else f.bound,
                'cases': per.get(f.name, [0])[0], 'transitions': per.get(f.name, [0, 0, 0])[2],
                'worker_s': round(per.get(f.name, [0, 0, 0, 0])[3], 2),
                'outcomes': {str(k[1]): v for k, v in sorted(outcomes.items(), key=str) if k[0] == f.name}} for f in families]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': traces,
            'samples': ['%s: %s' % kv for kv in list(samples.items())[:12]],
            'exhaustive': not fails,
            'families': fam_out,
            'meaning': 'states: distinct (step, reference result) configurations compared; transitions: steps of the '
                       'reference model whose result was compared with the real code; traces: cases executed on the '
                       'real code. Each family is a finite space that was enumerated completely within its bound.',
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fails),
    }
    if fails:
        evidence['coverage'].pop('exhaustive')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k, v in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[k]['what'], v))
    print('%s %s: %d families, %d cases, %d transitions, %d states, %.1f s' %
          (pid, tier, len(families), traces, transitions, len(states), time.time() - t0))
    for f in fam_out if os.environ.get('VERIF_VERBOSE') else ():
        print('   %-28s %8d cases %10d steps %7.1f s' % (f['family'], f['cases'], f['transitions'], f['worker_s']), f['outcomes'] or '')
    if not fails:
        return 0
    fi, idx, case, msg, w = fails[0]
    fam = families[fi]
    alone, _ = fresh_case(fam, dec(case), set(known))
    rec = {'property': pid, 'family': fam.name, 'index': idx, 'case': case, 'message': msg, 'reproduces_alone': alone is not None}
    if alone is None:
        rec['history'] = {'workers': nproc, 'worker': w, 'seed': seed, 'tier': tier,
                          'note': 'fails only after the earlier cases of this worker'}
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    name = '%s-%s.json' % (pid, hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(VERIF, 'replays', name)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    print('  family %s case %d: %s' % (fam.name, idx, short(dec(case), 400)))
    print('  %s' % msg)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
