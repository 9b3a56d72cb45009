"""Monitoring framework: drives cases against the real code in /repo, collects
what the monitors observed, and turns a refutation into a replayable witness.

A *case* is a JSON-able dict that fully describes one execution (an operation
history, a set of source files and a command line, a configuration to sweep).
`Check.cases` generates them from VERIF_SEED, `Check.run` executes one against
the real code while its monitor compares every observed event with a reference
model, and raises Violation with the offending event.
"""
import errno
import collections
import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EVID = os.path.join(VERIF, 'evidence')

CASE_CPU_LIMIT = 150        # seconds of CPU for a case that takes < 8 s


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Endless(CaseTimeout):
    pass


OUTPUT_LIMIT = 256 << 20    # the largest output of a case is about 20 MB


class TextSink(io.StringIO):
    """Captured output; a loop that prints forever is cut off."""
    size = 0

    def write(self, s):
        self.size += len(s)
        if self.size > OUTPUT_LIMIT:
            raise Endless()
        return super().write(s)


class ByteSink(io.BytesIO):
    size = 0
    broken = None

    def write(self, b):
        self.size += len(b)
        if self.broken is not None and self.size > self.broken:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.size > OUTPUT_LIMIT:
            raise Endless()
        return super().write(b)


def bail(fmt, *args):
    raise Violation(fmt % args if args else fmt)


def expect(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class Obs:
    """What one call into the code under test was observed to do."""
    __slots__ = ('ok', 'val', 'exc')

    def __init__(self, ok, val, exc):
        self.ok, self.val, self.exc = ok, val, exc

    @property
    def desc(self):
        return 'returned %s' % short(self.val) if self.ok else \
            'raised %s(%s)' % (type(self.exc).__name__, short(str(self.exc)))


def _not_fuzzywuzzy(rec):
    return 'Applied processor reduces' not in str(rec.msg)


# fuzzywuzzy warns through the root logger about queries without letters; its
# handler keeps the standard error of whoever was first, so in one process the
# warning lands anywhere. It is no output of the code under test.
logging.getLogger().addFilter(_not_fuzzywuzzy)


def scribble(v):
    """Change a list the code handed out, as its caller may do: the list is
    the caller's, later answers must not show the change."""
    if type(v) is list:
        v.reverse()
        v.append('scribbled')


def steps(rng, usual, many):
    """The length of a history: now and then a long one."""
    return many if rng.random() < 0.004 else rng.choice(usual)


def tighten(rng, ops, p=0.25):
    """Sometimes: the same history length from a handful of its steps, each
    repeated, so that repeated identical operations meet every other one."""
    if len(ops) < 4 or rng.random() >= p:
        return ops
    few = rng.sample(ops, rng.choice([2, 3, 4, 6]) if len(ops) > 6 else 3)
    return [rng.choice(few) for _ in ops]


def call(f, *a, **k):
    try:
        return Obs(True, f(*a, **k), None)
    except (Exception, SystemExit) as e:
        return Obs(False, None, e)


def by_position(defaults, kw):
    """The arguments kw in the documented order of the parameters, up to the
    last one given; defaults is a list of (name, default value)."""
    out = [kw.get(n, v) for n, v in defaults]
    last = max([i for i, (n, _) in enumerate(defaults) if n in kw] + [-1])
    return out[:last + 1]


def expect_raises(o, types, fmt, *args):
    what = fmt % args if args else fmt
    expect(not o.ok, '%s: expected a refusal, but it %s', what, o.desc)
    expect(isinstance(o.exc, types), '%s: expected %s, but it %s', what,
           getattr(types, '__name__', types), o.desc)


def expect_ok(o, fmt, *args):
    what = fmt % args if args else fmt
    expect(o.ok, '%s: legal operation, but it %s', what, o.desc)
    return o.val


def expect_val(o, want, fmt, *args):
    what = fmt % args if args else fmt
    expect(o.ok, '%s: expected %s, but it %s', what, short(want), o.desc)
    expect(o.val == want, '%s: expected %s, observed %s', what, short(want),
           short(o.val))
    return o.val


class Ctx:
    def __init__(self, pid, tier, seed, shard, nshards, scratch):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.shard, self.nshards = shard, nshards
        self.scratch = scratch
        self.rng = random.Random('%s/%s/%s/%s' % (seed, pid, shard, nshards))
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.known = {}
        self.evaluations = 0
        self.thorough = tier == 'thorough'
        self._n = 0

    def mine(self, it):
        for i, x in enumerate(it):
            if i % self.nshards == self.shard:
                yield x

    def share(self, total):
        """This shard's part of `total` random cases."""
        return max(1, total // self.nshards)

    def ev(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """Fingerprint of an observed non-trivial state or outcome."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(),
                                          digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=repr)))

    def finding(self, fid):
        self.known[fid] = self.known.get(fid, 0) + 1

    @contextlib.contextmanager
    def tmpdir(self):
        d = tempfile.mkdtemp(dir=self.scratch)
        old = os.getcwd()
        try:
            yield d
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)


class Check:
    id = None
    rule = ''
    assumptions = []
    require = {}            # counter -> minimum, else inconclusive
    shrink = ()             # names of list-valued case members to shrink
    exhaustive = False

    def cases(self, ctx):
        raise NotImplementedError

    def run(self, ctx, case):
        raise NotImplementedError


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, ctx, case):
    """Run one case under the monitor; return None or a violation text."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    cwd = os.getcwd()
    try:
        check.run(ctx, case)
    except Violation as e:
        return str(e)
    except Endless:
        return 'the operation did not finish: it prints without end'
    except CaseTimeout:
        return ('the operation did not finish within %d s of CPU time '
                '(no case here takes more than 8 s)' % CASE_CPU_LIMIT)
    except (Exception, SystemExit) as e:
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + '/') for f in frames):
            return ('unexpected %s from the code under test: %s | %s' %
                    (type(e).__name__, e,
                     ' <- '.join('%s:%s' % (os.path.basename(f.filename),
                                            f.lineno)
                                 for f in reversed(frames[-6:]))))
        if isinstance(e, (TypeError, AttributeError, LookupError,
                          ValueError)):
            # e.g. an int where the API gives a list: the monitor cannot read
            # what the code under test returned.
            return ('an observed result has the wrong shape: %s: %s | %s' %
                    (type(e).__name__, e,
                     ' <- '.join('%s:%s' % (os.path.basename(f.filename),
                                            f.lineno)
                                 for f in reversed(frames[-4:]))))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
    return None


def shrink_case(check, ctx, case, msg, budget=25.0):
    t0 = time.time()
    quiet = Ctx(ctx.pid, ctx.tier, ctx.seed, 0, 1, ctx.scratch)
    if 'did not finish' in msg:
        return case, msg
    for key in check.shrink:
        if not isinstance(case.get(key), list):
            continue
        items = case[key]
        n = 2
        while len(items) >= 2 and time.time() - t0 < budget:
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                trial = items[:i] + items[i + size:]
                c = dict(case)
                c[key] = trial
                try:
                    m = run_case(check, quiet, c)
                except (Exception, SystemExit):
                    m = None
                if m is not None:
                    items, case, msg = trial, c, m
                    n = max(2, n - 1)
                    break
                if time.time() - t0 > budget:
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
    return case, msg


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


def quiet_streams():
    sys.stdout = NullOut()
    sys.stderr = NullOut()


def _worker(check, pid, tier, seed, shard, nshards, scratch, deadline, conn):
    real_err = sys.__stderr__
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20,) * 2)
        resource.setrlimit(resource.RLIMIT_FSIZE, (OUTPUT_LIMIT,) * 2)
        quiet_streams()
        ctx = Ctx(pid, tier, seed, shard, nshards, scratch)
        os.chdir(scratch)
        res = {'violation': None, 'truncated': False}
        for case in check.cases(ctx):
            if time.time() > deadline:
                res['truncated'] = True
                break
            ctx.evaluations += 1
            msg = run_case(check, ctx, case)
            if msg is not None:
                case, msg = shrink_case(check, ctx, case, msg)
                res['violation'] = {'case': case, 'message': msg}
                break
        res.update(evaluations=ctx.evaluations, events=dict(ctx.events),
                   distinct=list(ctx.distinct), samples=ctx.samples,
                   known=ctx.known)
        conn.send(res)
    except BaseException:
        real_err.write(traceback.format_exc())
        real_err.flush()
        try:
            conn.send({'error': traceback.format_exc()})
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def load_known():
    """fid -> (property, text) of the committed known findings."""
    out = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith('KNOWN-FINDING: '):
                body = line[len('KNOWN-FINDING: '):].strip()
                prop, fid, text = body.split(' ', 2)
                out[fid.strip('[]')] = (prop.split('=')[1], text)
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=repr)
        f.write('\n')
    os.replace(tmp, path)


def check_repo_import():
    import h800
    fn = os.path.realpath(h800.__file__ or list(h800.__path__)[0])
    if not fn.startswith(REPO + '/'):
        print('INCONCLUSIVE: h800 imported from %s, not /repo' % fn)
        sys.exit(2)


def import_failed(pid, e):
    """The package cannot even be loaded: nothing it promises holds."""
    frames = traceback.extract_tb(e.__traceback__)
    if not any(f.filename.startswith(REPO + '/') for f in frames) and not (
            isinstance(e, ImportError) and
            (getattr(e, 'name', None) or '').startswith('h800')):
        return
    msg = 'the package does not load: %s: %s' % (type(e).__name__, e)
    rp = os.path.join(EVID, 'replay', '%s.json' % pid)
    write_json(rp, {'property': pid, 'case': {'kind': 'import'},
                    'message': msg})
    write_json(os.path.join(EVID, '%s.json' % pid), {
        'property': pid, 'tier': 'quick', 'seed': 1, 'level': 'exploration',
        'coverage': {'evaluations': 1, 'distinct_nontrivial': 0,
                     'rule': 'loading the package', 'samples': [msg]},
        'wall_s': 0.0, 'violations': 1})
    print('witness: %s' % msg)
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    sys.exit(1)


def replay(check, pid, path):
    w = json.load(open(path))
    check_repo_import()
    scratch = tempfile.mkdtemp(prefix='h800mon-')
    out = sys.stdout
    try:
        ctx = Ctx(pid, 'quick', w.get('seed', 1), 0, 1, scratch)
        os.chdir(scratch)
        e = sys.stderr
        quiet_streams()
        try:
            msg = run_case(check, ctx, w['case'])
        finally:
            sys.stdout, sys.stderr = out, e
            os.chdir('/')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is None:
        print('replay %s: property %s held' % (path, pid))
        return 0
    print('replay %s: %s' % (path, msg))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main(check, argv):
    pid = check.id
    if '--replay' in argv:
        return replay(check, pid, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    budget = 3600.0 if tier == 'thorough' else 420.0
    deadline = t0 + budget
    check_repo_import()
    nshards = int(os.environ.get('VERIF_JOBS', '0')) or \
        max(1, min(8, os.cpu_count() or 1))
    # The cases depend on the number of shards: keep it fixed.
    nlogical = 8
    scratch = tempfile.mkdtemp(prefix='h800mon-')
    mp = multiprocessing.get_context('fork')
    results, errors = [], []
    violation = None
    try:
        pending = list(range(nlogical))
        running = {}
        while pending or running:
            while pending and len(running) < nshards:
                s = pending.pop(0)
                r, w = mp.Pipe(False)
                d = os.path.join(scratch, 'w%d' % s)
                os.mkdir(d)
                p = mp.Process(target=_worker,
                               args=(check, pid, tier, seed, s, nlogical, d,
                                     deadline, w))
                p.start()
                w.close()
                running[s] = (p, r)
            ready = multiprocessing.connection.wait(
                [r for _, r in running.values()], timeout=5)
            for s in list(running):
                p, r = running[s]
                if r in ready:
                    try:
                        res = r.recv()
                    except EOFError:
                        res = {'error': 'worker %d died' % s}
                    p.join(10)
                    r.close()
                    del running[s]
                    if 'error' in res:
                        errors.append(res['error'])
                    else:
                        results.append(res)
                        if res['violation'] and violation is None:
                            violation = res['violation']
            hard = time.time() > deadline + 240
            if violation or errors or hard:
                for s, (p, r) in running.items():
                    p.kill()
                    p.join(10)
                if hard and running:
                    errors.append('watchdog: workers did not finish')
                running = {}
                pending = []
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)

    events = collections.Counter()
    distinct = set()
    samples, known = [], collections.Counter()
    evaluations = 0
    for res in results:
        events.update(res['events'])
        distinct.update(res['distinct'])
        samples.extend(res['samples'])
        known.update(res['known'])
        evaluations += res['evaluations']
    truncated = any(r['truncated'] for r in results)
    wall = time.time() - t0
    evid = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': check.rule,
            'samples': samples[:6] or ['none'],
            'events_observed': dict(events),
            'workers': len(results),
            'truncated_by_time': truncated,
            'known_findings_observed': dict(known),
        },
        'assumptions': list(check.assumptions),
        'wall_s': round(wall, 3),
        'violations': 1 if violation else 0,
    }
    rp = os.path.join(EVID, 'replay', '%s.json' % pid)
    if violation:
        write_json(rp, {'property': pid, 'seed': seed, 'tier': tier,
                        'case': violation['case'],
                        'message': violation['message'],
                        'how': 'python check.py %s --replay <this file>'
                               % pid})
        evid['coverage']['witness'] = violation['message']
    write_json(os.path.join(EVID, '%s.json' % pid), evid)

    print('%s tier=%s seed=%d cases=%d distinct=%d events=%d wall=%.1fs' %
          (pid, tier, seed, evaluations, len(distinct),
           sum(events.values()), wall))
    if violation:
        print('witness: %s' % violation['message'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errors:
        print('INCONCLUSIVE: harness error\n%s' % errors[0])
        return 2
    listed = load_known()
    for fid in sorted(known):
        if fid not in listed or listed[fid][0] != pid:
            print('witness: unlisted finding %s' % fid)
            write_json(rp, {'property': pid, 'case': {'finding': fid},
                            'message': fid})
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        print('KNOWN-FINDING: property=%s %s' % (pid, listed[fid][1]))
    short_of = {k: (events.get(k, 0), n) for k, n in check.require.items()
                if events.get(k, 0) < n}
    if short_of:
        print('INCONCLUSIVE: too few events observed: %r' % short_of)
        return 2
    return 0
