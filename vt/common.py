"""Shared harness: contexts, evidence, verdicts, known findings, parallel execution."""
import os, sys, json, time, signal, random, hashlib, traceback, warnings
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

NPROC = int(os.environ.get('VT_NPROC', str(min(8, os.cpu_count() or 1))))


def use_repo():
    """Make the working tree of the repository importable (first on the path)."""
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class JobTimeout(BaseException):
    """Raised inside a job by the CPU-time timer; a BaseException so that
    `except Exception` in the code under test does not swallow it."""


_timed_out = False


def _on_timer(signum, frame):
    global _timed_out
    _timed_out = True
    raise JobTimeout()


def run_limited(func, arg, cpu):
    """Run func(arg) under a CPU-time limit.
    Returns ('ok', value) | ('timeout', None) | ('exc', (type, msg, tb))."""
    global _timed_out
    _timed_out = False
    old = signal.signal(signal.SIGPROF, _on_timer)
    try:
        try:
            signal.setitimer(signal.ITIMER_PROF, cpu, 1.0)
            try:
                v = func(arg)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0, 0)
        except JobTimeout:
            return ('timeout', None)
        except MemoryError:
            return ('timeout', None)
        except Exception as e:
            if _timed_out:
                return ('timeout', None)
            return ('exc', (type(e).__name__, str(e)[:500], traceback.format_exc()[-2500:]))
        if _timed_out:   # the limit fired and was swallowed: result is meaningless
            return ('timeout', None)
        return ('ok', v)
    except JobTimeout:   # fired between the inner handlers
        return ('timeout', None)
    finally:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0, 0)
        except JobTimeout:
            signal.setitimer(signal.ITIMER_PROF, 0, 0)
        signal.signal(signal.SIGPROF, old)


def _worker(func, cpu, conn, mem):
    import resource
    if mem:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        except Exception:
            pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            item = conn.recv()
        except EOFError:
            return
        if item is None:
            return
        idx, arg = item
        r = run_limited(func, arg, cpu)
        try:
            conn.send((idx, r))
        except Exception as e:
            try:
                conn.send((idx, ('exc', ('SendError', str(e)[:300], ''))))
            except Exception:
                return


def pmap(func, jobs, cpu=60.0, nproc=None, deadline=None, mem=6 << 30, recycle=200):
    """Run func over jobs in forked workers. Yields (index, job, result) as results come.
    cpu: CPU seconds per job.  deadline: absolute time.time() after which no new job is
    started (jobs never started are reported as ('skipped', None)).
    A worker that dies or exceeds a generous wall watchdog gives ('died', None)."""
    nproc = nproc or NPROC
    jobs = list(jobs)
    ctx = mp.get_context('fork')
    from multiprocessing.connection import wait as mpwait
    sys.stdout.flush(); sys.stderr.flush()

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(func, cpu, b, mem), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0, 0]   # proc, conn, current idx, start time, served

    workers = [spawn() for _ in range(min(nproc, max(1, len(jobs))))]
    nxt = 0
    done = 0
    wall_cap = cpu * 4 + 60

    def feed(w):
        nonlocal nxt
        if nxt < len(jobs) and not (deadline and time.time() > deadline):
            w[1].send((nxt, jobs[nxt]))
            w[2], w[3] = nxt, time.time()
            nxt += 1
            return True
        w[2] = None
        return False

    try:
        for w in workers:
            feed(w)
        while any(w[2] is not None for w in workers):
            busy = {w[1]: w for w in workers if w[2] is not None}
            ready = mpwait(list(busy), timeout=2.0)
            for c in ready:
                w = busy[c]
                try:
                    idx, r = c.recv()
                except (EOFError, OSError):
                    idx, r = w[2], ('died', None)
                    w[0].join(1)
                    i = workers.index(w)
                    nw = spawn()
                    workers[i] = nw
                    w = nw
                w[4] += 1
                if recycle and w[4] >= recycle:
                    try:
                        w[1].send(None)
                    except Exception:
                        pass
                    w[0].join(0.1)
                    i = workers.index(w)
                    w = workers[i] = spawn()
                feed(w)
                done += 1
                yield idx, jobs[idx], r
            now = time.time()
            for i, w in enumerate(workers):
                if w[2] is not None and now - w[3] > wall_cap:
                    idx = w[2]
                    w[0].kill()
                    w[0].join(1)
                    workers[i] = spawn()
                    feed(workers[i])
                    done += 1
                    yield idx, jobs[idx], ('died', None)
        for idx in range(nxt, len(jobs)):
            yield idx, jobs[idx], ('skipped', None)
    finally:
        for w in workers:
            try:
                w[0].kill()
            except Exception:
                pass


def load_known():
    """known_findings.txt: lines  `known: property=<id> key=<mechanism> <text>`
    and `fixed: property=<id> <commit> <text>` (the latter suppress nothing)."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            parts = line.split(None, 3)
            pid = parts[1].split('=', 1)[1]
            key = parts[2].split('=', 1)[1]
            out.setdefault(pid, {})[key] = parts[3] if len(parts) > 3 else ''
    return out


class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier=None, seed=None, rule='', assumptions=(), soft=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.rule = rule
        self.assumptions = list(assumptions)
        self.counters = {}
        self.viol = []
        self.knownhits = {}
        self.known = load_known().get(pid, {})
        self.required = []
        # no new work is started after the soft limit (seconds)
        lim = soft or (420 if self.quick else 700)
        self.deadline = self.t0 + lim

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def observe(self, key, nontrivial=True, sample=None, k=1):
        """One evaluation of the oracle."""
        self.evals += k
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest())
        if sample is not None and len(self.samples) < 12:
            if len(self.samples) < 4 or self.rng.random() < 0.05:
                self.samples.append(sample)

    def require(self, counter, minimum):
        """The monitor must have been reached at least `minimum` times, else inconclusive."""
        self.required.append((counter, minimum))

    def violation(self, what, detail, key=None):
        """key: mechanism identifier, compared with the known-findings file."""
        if key is not None and key in self.known:
            self.knownhits[key] = self.knownhits.get(key, 0) + 1
            return
        self.viol.append({'what': what, 'detail': detail, 'key': key})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        cov = {
            'evaluations': self.evals,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples[:12] or ['(none)'],
            'observed': self.counters,
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.viol)}
        if self.knownhits:
            cov['known_findings_seen'] = self.knownhits
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.known):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, self.known[k]))
        print('[%s] tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %s' % (
            self.pid, self.tier, self.seed, self.evals, len(self.distinct), wall,
            json.dumps(self.counters, default=str)))
        if self.viol:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                           'violations': self.viol[:50]}, f, indent=1, default=str)
            shown = set()
            for v in self.viol:
                d = v['detail']
                exc = d.get('exc') if isinstance(d, dict) else None
                tag = (v['what'], str(exc[2])[-200:] if isinstance(exc, (tuple, list)) and len(exc) > 2 else '')
                if tag in shown or len(shown) >= 8:
                    continue
                shown.add(tag)
                txt = str(d)
                if tag[1]:
                    txt = str({k: w for k, w in d.items() if k != 'exc'})[:500] + ' ' + str(exc[:2])[:300] + ' ... ' + str(exc[2])[-700:]
                print('  violated: %s\n    %s' % (v['what'], txt[:1500]))
            if len(self.viol) > len(shown):
                print('  (%d violations in all)' % len(self.viol))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            os._exit(1)
        for name, m in self.required:
            if self.counters.get(name, 0) < m:
                print('INCONCLUSIVE property=%s: %s observed %d < %d' % (
                    self.pid, name, self.counters.get(name, 0), m))
                sys.stdout.flush()
                os._exit(3)
        if self.evals == 0:
            print('INCONCLUSIVE property=%s: nothing observed' % self.pid)
            sys.stdout.flush()
            os._exit(3)
        sys.stdout.flush()
        os._exit(0)
