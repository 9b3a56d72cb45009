"""C25-C28: threads, verbose runs, transparent includes, crashes."""
import atexit
import copy
import hashlib
import io
import json
import os
import random
import re
import resource
import signal
import sys
import threading
import time

from . import model as M
from . import tools as T
from .core import CASE_CPU_LIMIT, Check, REPO, call, expect, short
from .m_instr import construct
from .m_purity import (ADDR, bitfield_orders, bitfield_schemes, card_view, first_diff, in_child, obs,
                       random_job, random_store, mk_store, store_op,
                       store_view, table_view)
from .m_symbols import captured
from .m_tools import (C20, LOC, assign_card, command, instr_card, placed,
                      tool_case)
from h800 import (arguscard, bitfield, instructions, memory, punchcard,
                  registers, symbol_table, word)


# --- C25: several threads

class Baton:
    """Lets one of n threads run at a time and hands over, at the seeded
    choice of `rng`, whenever the running one reaches another line (or
    bytecode) of the code under test: the schedule is replayable. When the
    running thread cannot go on (it waits for a lock another one holds), all
    threads run freely from there."""

    def __init__(self, n, rng, p, fine):
        self.rng, self.p, self.fine = rng, p, fine
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.free = False
        self.points = self.switches = 0
        self.trail = hashlib.blake2b(digest_size=8)

    def point(self, i):
        if self.free:
            return
        self.points += 1
        if self.switches > 2000:
            self.p = min(self.p, 0.002)
        if self.rng.random() < self.p and len(self.live) > 1:
            j = self.rng.choice(self.live)
            if j != i:
                self.hand(j)
                self.wait(i)

    def hand(self, j):
        self.switches += 1
        self.trail.update(b'%d@%d;' % (j, self.points))
        self.sem[j].release()

    def wait(self, i):
        seen, since = -1, time.time()
        while not self.sem[i].acquire(timeout=0.5):
            if self.free:
                return
            if self.points != seen:
                seen, since = self.points, time.time()
            elif time.time() - since > 5:
                self.free = True

    def done(self, i):
        self.live.remove(i)
        if self.live and not self.free:
            self.hand(self.rng.choice(self.live))

    def tracer(self, i):
        def local(frame, ev, arg):
            if ev in ('line', 'opcode'):
                self.point(i)
            return local

        def top(frame, ev, arg):
            if not frame.f_code.co_filename.startswith(REPO + '/'):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
            return local
        return top


class Intruder:
    """Runs `work` (whole jobs of other threads) in another thread at the
    first arrival of the traced thread at every line (or bytecode) of the
    code under test, and at some later arrivals, up to `cap` times."""

    def __init__(self, rng, fine, work, cap):
        self.rng, self.fine, self.work, self.cap = rng, fine, work, cap
        self.seen, self.points, self.done = {}, 0, 0
        self.trail = hashlib.blake2b(digest_size=8)

    def point(self, frame):
        self.points += 1
        at = (frame.f_code, frame.f_lasti if self.fine else frame.f_lineno)
        n = self.seen[at] = self.seen.get(at, 0) + 1
        if self.done >= self.cap or not (
                n == 1 or n < 40 and self.rng.random() < 0.15):
            return
        self.done += 1
        self.trail.update(b'%d;' % self.points)
        sys.settrace(None)
        t = threading.Thread(target=self.work, args=(n,), daemon=True)
        t.start()
        t.join(5)
        if t.is_alive():
            # it waits for a lock that the traced thread holds
            self.cap = 0
        sys.settrace(self.top)

    def local(self, frame, ev, arg):
        if ev in ('line', 'opcode'):
            self.point(frame)
        return self.local

    def top(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(REPO + '/'):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self.local


def tj_card(j):
    kw = {}
    if j.get('starts'):
        kw = {'fields': list(j['starts']), 'fieldnames': list(j['names']),
              'width': j['width']}
    cls = punchcard.PunchCard if j['plain'] else arguscard.Card
    return [obs(lambda: card_view(cls(j['line'], **kw))) for _ in range(3)]


def deck_view(k):
    return [[card_view(c) for c in k.cards], str(k),
            [list(x) for x in k.fields]]


def tj_lines(j):
    mod = punchcard if j['plain'] else arguscard
    return obs(lambda: deck_view(mod.Deck(list(j['lines']))))


def tj_deck(j):
    return obs(lambda: deck_view(arguscard.Deck(file=j['tops'][0])))


def tj_symbols(j):
    tab, out = {}, []
    for t in j['tops']:
        r = call(symbol_table.buildSymbolTable, t, tab)
        if not r.ok:
            out.append(['raise', type(r.exc).__name__])
            continue
        tab, n = r.val
        out.append([n, table_view(tab)])
    for n in j['names']:
        for kw in ({'begin': True}, {'end': True}, {'fuzzy': True}):
            out.append(obs(symbol_table.findSymbolDef, tab, n, **kw))
        r = obs(symbol_table.findSymbolDef, tab, n)
        out.append(table_view({n: r[1]}) if r[0] == 'ok' and r[1] else r)
    out.append(obs(symbol_table.getAbsoluteSymbols, tab))
    out.append(obs(symbol_table.checkSymbolTable, tab,
                   complexOnlyError=True))
    return out


def tj_encode(j):
    return [obs(lambda: construct(m, dict(kw)).value) for m, kw in j['todo']]


def tj_helpers(j):
    return [obs(getattr(instructions, f), *a) for f, a in j['todo']]


def tj_names(j):
    return [obs(registers.registerName, n) for n in range(-1, 33)] + \
        [obs(registers.registerAlias, n) for n in range(-1, 33)] + \
        [obs(registers.registerNumber, n) for n in j['names']]


def tj_store(j):
    s = j['store']
    o = mk_store(s)
    return [[obs(store_op, o, s, x) for x in j['ops']], store_view(o, s)]


def tj_registry(j):
    o = symbol_table.SymbolTable()
    out = []
    for x in j['ops']:
        rng = random.Random(x)
        n = 'S%d' % rng.randrange(6)
        c = rng.random()
        if c < 0.5:
            o.add(n, 'f', rng.randrange(99), rng.choice([None, 1, 2]))
        elif c < 0.7:
            o.update(n, rng.randrange(9), 'absolute')
        elif c < 0.8:
            o.pruneUndefines()
        elif c < 0.85:
            o.resolve()
        e = o.lookup(n)
        out.append([n, e and [e.value, e.line], list(o.undefines),
                    o.getNumSymbols()])
    return out


def prepare(j):
    """The large objects of an API job are made beforehand."""
    if j['job'] == 'api':
        j['_o'] = {'bank': memory.MemoryBank, 'module': memory.MemoryModule,
                   'group': lambda: registers.RegisterGroup(j['width']),
                   'regs': lambda: registers.Registers(j['width'])
                   }.get(j['kind'], lambda: None)()


def tj_api(j):
    """Every operation of one kind of object, on an object of its own."""
    rng, o, w, k = random.Random(j['seed']), j['_o'], j['width'], j['kind']
    out = []

    def do(f, *a):
        out.append(obs(f, *a))

    def get(f):
        do(lambda: f())
    if k == 'bits':
        w = rng.choice([1, 5, 8, 12, 48, 64])
        o = bitfield.BitField(rng.getrandbits(w), width=w,
                              numbering=rng.choice(bitfield_schemes()),
                              order=rng.choice(bitfield_orders()))
        for _ in range(4):
            ix = list(o.indices)
            x, y = sorted([rng.randrange(w), rng.randrange(w)])
            i, b, e = rng.choice(ix), ix[x], ix[y]
            do(o.__setitem__, slice(b, e), rng.getrandbits(y - x + 1))
            do(o.__setitem__, i, rng.randrange(2))
            do(o.__getitem__, slice(b, e))
            do(o.__getitem__, i)
            do(rng.choice([o.set, o.clear]), i)
            for f in (o.isBitSet, o.isBitClr):
                do(f, i)
            for f in (o.isRangeSet, o.isRangeClr):
                do(f, b, e)
            do(o.__setitem__, w + 5, 1)
            do(o.__setitem__, slice(b, e), 2 ** (y - x + 1))
            get(lambda: [o.value, int(o), repr(o), o.lsb, o.msb, len(o),
                         o.maxval])
        return [out, ix]
    if k in ('word', 'iword'):
        o = word.Word(rng.getrandbits(48)) if k == 'word' else \
            word.InstructionWord(*[rng.randrange(4096) for _ in range(4)])
        for _ in range(4):
            do(setattr, o, 'value', rng.getrandbits(rng.choice([48, 49])))
            get(lambda: o.value)
            if k == 'iword':
                do(setattr, o, rng.choice(['command', 'a', 'b', 'c']),
                   rng.randrange(4100))
                get(lambda: [int(o.command), int(o.a), int(o.b), int(o.c)])
        return out
    if k in ('bank', 'module'):
        for _ in range(3):
            b = o if k == 'bank' else o[rng.randrange(4)]
            a = rng.randrange(2040)
            for x in range(a, a + 6):
                b[x] = 0
            do(b.__setitem__, a + rng.randrange(6), rng.getrandbits(48))
            do(b.__getitem__, slice(a, a + 5))
            do(b.__setitem__, slice(a, a + rng.randint(1, 4)),
               rng.getrandbits(48))
            do(b.__getitem__, slice(a + 1, a + 6))
            do(b.__getitem__, a)
            do(b.__setitem__, a, -1)
            get(lambda: [b[a], len(b), len(o)])
        return out
    if k == 'reg':
        o = registers.Register(0, name=rng.choice(['X1', 'SC', 'RAC']),
                               width=w)
        gs = [o]
    else:
        o.clear()
        gs = [o] if k == 'group' else [o[rng.randrange(8)] for _ in range(2)]
    for g in gs * 2:
        n = rng.randrange(32)
        name = registers.registerName(n)
        r = g if k == 'reg' else g[n] if rng.random() < 0.5 else g[name]
        do(setattr, r, 'value', rng.getrandbits(w))
        i = rng.randint(1, w)
        do(r.__setitem__, i, rng.randrange(2))
        e = rng.randint(i, w)
        do(r.__setitem__, slice(i, e), rng.getrandbits(e - i + 1))
        do(r.__getitem__, slice(1, i))
        do(r.__getitem__, i)
        do(setattr, r, 'value', 1 << w)
        get(lambda: [r.value, r.name, repr(r), len(r)])
        if k != 'reg':
            get(lambda: [g[name].value, g[n].value])
            get(lambda: [x.value for x in g])
            get(lambda: repr(g))
            m = rng.randrange(32)
            do(g.__setitem__, m, registers.Register(rng.getrandbits(w),
                                                    width=w))
            get(lambda: g[m].value)
            do(g.__setitem__, m, registers.Register(
                0, name=registers.registerName(m), width=w))
            do(g.__getitem__, 'NO')
    return out


API = ['bits', 'word', 'iword', 'bank', 'module', 'reg', 'group', 'regs']
TJ = {k[3:]: v for k, v in list(globals().items()) if k.startswith('tj_')}


class C25(Check):
    id = 'C25'
    shrink = ('jobs',)
    rule = ('random sets of 2 to 5 jobs (cards, decks, symbol tables and '
            'queries, encodings, histories of stores and registries), each '
            'on objects and files of its own, are executed one after the '
            'other and then by as many threads under a seeded scheduler '
            'that changes threads between lines or bytecodes of the code '
            'under test, or by one thread while others do whole jobs at '
            'every line or bytecode it reaches; each thread must get the result it gets alone. '
            'Distinct = interleavings observed.')
    require = {'threads': 1000, 'switches': 20000, 'intrusions': 5000, 'points': 200000,
               'interleavings': 300}

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.share(30000 if ctx.thorough else 1600)):
            shared = {'lines': [M.random_card_line(rng) for _ in range(8)],
                      'trees': []}
            for _ in range(2):
                files, tops = M.file_tree(rng, 8, rng.choice(
                    [M.symbol_card, instr_card]))
                for n in files:
                    files[n] = [' ' + x[1:] if x.startswith('$') and not (
                        x[1:].split() and x[1:].split()[0] in files) else x
                        for x in files[n]]
                shared['trees'].append((files, tops))
            jobs = []
            kind = rng.choice([None, None, 'card', 'lines', 'deck', 'symbols',
                               'encode', 'helpers', 'store', 'registry',
                               'names', 'api', 'api', 'api'])
            api = rng.choice(API)
            for _ in range(rng.randint(2, 5)):
                k = kind or rng.choice(['card', 'lines', 'deck', 'symbols',
                                        'encode', 'helpers', 'names',
                                        'store', 'registry', 'api'])
                if k == 'store':
                    s = random_store(rng)
                    while s[0] in ('symtab', 'module', 'expansion') or (
                            s[0] == 'bank' and rng.random() < 0.9):
                        s = random_store(rng)
                    jobs.append({'job': k, 'store': s, 'ops': [
                        rng.randrange(10 ** 9) for _ in range(10)]})
                elif k == 'api':
                    jobs.append({'job': k, 'kind': api,
                                 'width': rng.choice([16, 24]),
                                 'seed': rng.randrange(10 ** 9)})
                elif k == 'registry':
                    jobs.append({'job': k, 'ops': [
                        rng.randrange(10 ** 9) for _ in range(15)]})
                else:
                    jobs.append(random_job(rng, shared, k))
            yield {'jobs': jobs, 'rs': rng.randrange(10 ** 9),
                   'p': rng.choice([0.01, 0.05, 0.2, 0.7]),
                   'fine': rng.random() < 0.3,
                   'mode': rng.choice(['baton', 'intruder'])}

    def run(self, ctx, case):
        with ctx.tmpdir() as d:
            jobs = []
            for i, j in enumerate(case['jobs']):
                j = copy.deepcopy(j)
                if 'files' in j:
                    w = os.path.join(d, 't%d' % i)
                    os.mkdir(w)
                    _, tops, _, _ = M.lay_out(w, j['files'], j['tops'], (),
                                              'abs')
                    j = dict(j, tops=tops, files=None)
                jobs.append(j)

            def separately():
                for j in jobs:
                    prepare(j)
                return [TJ[j['job']](j) for j in jobs]
            alone = in_child(separately)

            def together():
                b = Baton(len(jobs), random.Random(case['rs']), case['p'],
                          case['fine'])
                got = [None] * len(jobs)
                for j in jobs:
                    prepare(j)

                def work(i):
                    b.wait(i)
                    sys.settrace(b.tracer(i))
                    try:
                        got[i] = TJ[jobs[i]['job']](jobs[i])
                    except BaseException as e:
                        got[i] = ['thread died', type(e).__name__, str(e)]
                    finally:
                        sys.settrace(None)
                        b.done(i)
                th = [threading.Thread(target=work, args=(i,), daemon=True)
                      for i in range(len(jobs))]
                for t in th:
                    t.start()
                b.sem[b.rng.choice(b.live)].release()
                for t in th:
                    t.join()
                return [got, b.points, b.switches, b.trail.hexdigest()]

            def intruded():
                rng = random.Random(case['rs'])
                bad = []
                got = [None]
                for j in jobs:
                    prepare(j)

                def other(n):
                    todo = range(1, len(jobs))
                    if n > 1:
                        todo = [rng.choice(todo)]
                    for i in todo:
                        r = TJ[jobs[i]['job']](jobs[i])
                        if r != alone[i] and not bad:
                            r = json.loads(json.dumps(r, default=repr))
                            if r != alone[i]:
                                bad.append([i, r])
                intruder = Intruder(rng, case['fine'], other, 400)

                def work():
                    sys.settrace(intruder.top)
                    try:
                        got[0] = TJ[jobs[0]['job']](jobs[0])
                    except BaseException as e:
                        got[0] = ['thread died', type(e).__name__, str(e)]
                    finally:
                        sys.settrace(None)
                t = threading.Thread(target=work, daemon=True)
                t.start()
                t.join()
                res = got + alone[1:]
                for i, r in bad:
                    res[i] = r
                return [res, intruder.points, intruder.done,
                        intruder.trail.hexdigest()]
            if case.get('mode') == 'intruder' and len(jobs) > 1:
                got, points, switches, trail = in_child(intruded)
                ctx.ev('intrusions', switches)
            else:
                got, points, switches, trail = in_child(together)
                ctx.ev('handovers', switches)
            for i, j in enumerate(jobs):
                expect(got[i] == alone[i], 'job %d (%s) run by one of %d '
                       'threads gives another result than alone: %s', i,
                       short({k: v for k, v in j.items() if k not in ('files', '_o')},
                             200), len(jobs), first_diff(got[i], alone[i]))
            ctx.ev('threads', len(jobs))
            ctx.ev('points', points)
            ctx.ev('switches', switches)
            if switches:
                ctx.ev('interleavings')
                ctx.state(trail, [j['job'] for j in jobs])
            ctx.sample({'jobs': [j['job'] for j in jobs],
                        'switches': switches, 'points': points})


# --- C26: verbose runs

def subsequence(a, b):
    """None, or the first of a's lines that b does not have in order."""
    it = iter(b)
    for i, x in enumerate(a):
        if not any(x == y for y in it):
            return i
    return None


VERBOSE = ['listing', 'parse', 'check-instructions', 'check-symbols',
           'find-symbols', 'list-symbols', 'list-instructions']


def base_options(rng, tool):
    def pick(*o):
        return [x for x in o if rng.random() < 0.4]
    if tool == 'check-instructions':
        return pick('-a', '-c', '-i', '-p', '-s', '-u')
    if tool == 'check-symbols':
        return pick('-c')
    if tool == 'find-symbols':
        return rng.choice([[], ['-b'], ['-e'], ['-f'], ['-x']])
    if tool == 'list-instructions':
        return pick('-D')
    return []


def first_args(rng, tool):
    if tool == 'find-symbols':
        return [rng.choice(M.LABELS + ['A', 'T', 'L', '1', 'ZZ'])]
    if tool == 'list-instructions':
        return [rng.choice(['BA', 'TX', 'BA,', 'TX,M', 'WA', 'EQUALS',
                            'SETLOC', 'ASSIGN', 'QQ'])]
    return []


class C26(Check):
    id = 'C26'
    rule = ('every tool with random options on random sources (healthy and '
            'with a file missing), run without and with -v (the parser also '
            'with -d): same exit status, error output and files, and the '
            'lines of the quiet output are all in the verbose output, in '
            'order; cards, decks, symbol tables and queries made with '
            'verbose=True equal those made without. Distinct = sources and '
            'command lines.')
    require = dict({'runs ' + t: 200 for t in VERBOSE}, lines=20000,
                   extra_lines=5000, objects=1500, stopped=150)

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(80000 if ctx.thorough else 4800)):
            tool = rng.choice(VERBOSE)
            c = tool_case(rng, rng.choice([instr_card, M.symbol_card,
                                           assign_card, M.random_card_line]))
            c.update(tool=tool, opts=base_options(rng, tool),
                     first=first_args(rng, tool),
                     more=rng.choice([['-v'], ['-d'], ['-v', '-d']])
                     if tool == 'parse' else ['-v'],
                     process=i % 90 == 7)
            if rng.random() < 0.12:
                c['gone'] = rng.choice(sorted(c['files']))
            yield c

    def run(self, ctx, case):
        tool = case['tool']
        if case.get('gone'):
            case = dict(case, files={k: v for k, v in case['files'].items()
                                     if k != case['gone']})
        seen = []
        for more in ([], case['more']):
            with ctx.tmpdir() as d:
                d = os.path.join(d, 'x')
                os.mkdir(d)
                c = placed(d, case)
                argv = command(case, case['opts'] + more,
                               case['first'] + c['tops'])
                if case.get('process'):
                    r = T.run_process(tool, argv, c['cwd'])
                else:
                    r = T.run_inproc(tool, argv, c['cwd'], d)
                    expect(not r.mon.escapes, '%s: operations outside its '
                           'files: %r', r.what, r.mon.escapes[:3])
                real = os.path.realpath(d)
                seen.append((r, ADDR.sub('@', r.err).replace(real, '@'),
                             [ADDR.sub('@', x).replace(real, '@') for x in r.lines],
                             {k: (v[0], v[1], v[2] and v[2].decode().replace(
                                 real, '@').rstrip('\n'))
                              for k, v in T.tree(d).items()}))
                ctx.ev('runs ' + tool)
                if more:
                    self.objects(ctx, c, d)
        (q, qerr, qlines, qtree), (v, verr, vlines, vtree) = seen
        expect(q.code == v.code, '%s: exit %s, without %s exit %s', v.what,
               v.code, ' '.join(case['more']), q.code)
        if q.exc is None and v.exc is None:
            expect(qerr == verr, '%s: error output differs from the quiet '
                   'run: %s', v.what, first_diff(verr.split('\n'),
                                                 qerr.split('\n')))
        n = subsequence(qlines, vlines)
        expect(n is None, '%s: line %s of the quiet output is missing, '
               'changed or moved: %r', v.what, n,
               qlines[n] if n is not None else None)
        if case.get('style') != 'abs':
            ch = sorted(k for k in set(qtree) | set(vtree)
                        if qtree.get(k) != vtree.get(k))
            expect(not ch, '%s: files differ from those of the quiet run: '
                   '%r', v.what, ch)
        ctx.ev('lines', len(qlines))
        ctx.ev('extra_lines', len(vlines) - len(qlines))
        ctx.ev('stopped', q.code not in (0, None))
        ctx.state(tool, v.argv, sorted(case['files'].items()))
        ctx.sample({'tool': tool, 'argv': v.argv, 'quiet': len(qlines),
                    'verbose': len(vlines)})

    @staticmethod
    def objects(ctx, case, d):
        old = os.getcwd()
        os.chdir(case['cwd'])
        try:
            views = []
            for kw in ({}, {'verbose': True}):
                out = []
                with captured() as (_, e):
                    tab = {}
                    for t in case['tops']:
                        out.append(obs(lambda: deck_view(arguscard.Deck(
                            file=t, **kw))))
                        out.append(obs(lambda: deck_view(punchcard.Deck(
                            file=t, **kw))))
                        r = call(symbol_table.buildSymbolTable, t, tab, **kw)
                        out.append([r.val[1], table_view(r.val[0])]
                                   if r.ok else type(r.exc).__name__)
                    for f in sorted(case['files']):
                        out.append(obs(lambda: deck_view(arguscard.Deck(
                            list(case['files'][f]), **kw))))
                        for x in case['files'][f][:5]:
                            if not x.startswith('#'):
                                out.append(obs(lambda: card_view(
                                    arguscard.Card(x, **kw))))
                    out.append(obs(symbol_table.checkSymbolTable, tab,
                                   complexOnlyError=True, **kw))
                    for n in ('A', 'LOOP', '1'):
                        for k in ({'begin': True}, {'end': True},
                                  {'fuzzy': True}):
                            out.append(obs(symbol_table.findSymbolDef, tab,
                                           n, **k, **kw))
                        out.append(obs(symbol_table.findSymbolDef, tab, n,
                                       **kw)[0:1])
                    out.append(ADDR.sub('@', e.getvalue()))
                views.append(out)
            expect(views[0] == views[1], 'made with verbose=True, something '
                   'differs from what it is without: %s',
                   first_diff(views[1], views[0]))
            ctx.ev('objects', len(views[0]))
        finally:
            os.chdir(old)


# --- C27: includes are transparent

PLACE = re.compile(r"'file': (?:'[^']*'|\"[^\"]*\"), 'line': \d+")


class C27(Check):
    id = 'C27'
    rule = ('random source trees with includes are run through every '
            'reporting tool and the library, and again with each named '
            'source replaced by one file of the same name that holds the '
            'text of its deck; all that is reported (errors, counts, '
            'frequencies, listed instructions, symbols, matches, cards) '
            'must be the same but for file names and line numbers. '
            'Distinct = trees with includes and tools observed.')
    require = {'pairs': 2000, 'with_includes': 900, 'included_cards': 5000,
               'lines': 50000, 'symbols': 10000, 'errors': 3000}
    TOOLS = ['listing', 'parse', 'check-instructions', 'check-symbols',
             'find-symbols', 'list-symbols', 'list-instructions']

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(60000 if ctx.thorough else 4000)):
            tool = rng.choice(self.TOOLS)
            c = tool_case(rng, rng.choice([instr_card, M.symbol_card,
                                           assign_card]))
            opts = [o for o in base_options(rng, tool)
                    if o not in ('-p', '-D')]
            c.update(tool=tool, opts=opts, first=first_args(rng, tool),
                     style='plain')
            yield c

    def run(self, ctx, case):
        tops = list(dict.fromkeys(case['tops']))
        cards = {t: M.expand(case['files'], t) for t in tops}
        flat = {t: [c.line for c in cards[t]] for t in tops}
        seen = []
        for files in (case['files'], flat):
            with ctx.tmpdir() as d:
                d = os.path.join(d, 'x')
                os.mkdir(d)
                c = placed(d, dict(case, files=files, nonl=()))
                argv = command(case, case['opts'],
                               case['first'] + c['tops'])
                r = T.run_inproc(case['tool'], argv, c['cwd'], d)
                expect(not r.mon.escapes, '%s: operations outside its '
                       'files: %r', r.what, r.mon.escapes[:3])
                seen.append((r, self.tool_view(r, d, tops),
                             self.library(ctx, c)))
        (a, av, al), (b, bv, bl) = seen
        expect(a.code == b.code, '%s: exit %s with includes, %s with the '
               'included text in place', a.what, a.code, b.code)
        expect(av == bv, '%s: reports something else than with the included '
               'text in place: %s', a.what, first_diff(av, bv))
        expect(al == bl, 'sources %s: read as something else than with the '
               'included text in place: %s', ' '.join(tops),
               first_diff(al, bl))
        n = sum(c.filename != t for t in tops for c in cards[t])
        ctx.ev('pairs')
        ctx.ev('with_includes', n > 0)
        ctx.ev('included_cards', n)
        ctx.ev('lines', len(a.lines))
        if n:
            ctx.state(case['tool'], a.argv, sorted(case['files'].items()))
            ctx.sample({'tool': case['tool'], 'argv': a.argv,
                        'included_cards': n})

    @staticmethod
    def tool_view(r, d, tops):
        """What a run reports, without places."""
        out = []
        for x in r.lines:
            m = LOC.match(x)
            if m:
                x = m.group(3)
            elif r.tool == 'list-symbols' and x.startswith('        <'):
                x = x.split('>')[0] + '>'
            elif r.tool == 'find-symbols':
                x = ADDR.sub('@', PLACE.sub('', x))
            out.append(x)
        err = []
        for x in r.err.split('\n'):
            if x.startswith(('Previous definitions: ', 'Current definition: ')):
                x = x.split(':')[0]
            err.append(x)
        lst = []
        if r.tool == 'listing':
            for t in tops:
                p = os.path.join(d, os.path.splitext(t)[0] + '.lst')
                with open(p, newline='\n') as f:
                    lst.append(f.read().count('\n'))
        return [out, err, lst]

    @staticmethod
    def library(ctx, case):
        old = os.getcwd()
        os.chdir(case['cwd'])
        try:
            out = []
            with captured():
                tab = {}
                for t in case['tops']:
                    k = arguscard.Deck(file=t)
                    out.append([str(k), list(k.lines), k.log_section,
                                k.log_section_col8,
                                [list(x) for x in k.fields],
                                [list(x) for x in k.strippedFields],
                                [sorted((a, b) for a, b in x.items()
                                        if a != 'linenum' and b is not None)
                                 for x in k.records]])
                    tab, n = symbol_table.buildSymbolTable(t, tab)
                    out.append([n, sorted(e[:4] + e[6:]
                                          for e in table_view(tab))])
                    ctx.ev('errors', n)
            ctx.ev('symbols', len(tab))
            return out
        finally:
            os.chdir(old)


# --- C28: crashes and failing writes

class Killer:
    """Ends the process, without any cleaning up, or interrupts it by a
    signal, when the code under test reaches its n-th line."""

    def __init__(self, n, sig=None):
        self.n, self.count, self.sig = n, 0, sig

    def local(self, frame, ev, arg):
        if ev == 'line':
            self.count += 1
            if self.count == self.n:
                if self.sig is None:
                    os._exit(99)
                os.kill(os.getpid(), self.sig)
        return self.local

    def top(self, frame, ev, arg):
        if frame.f_code.co_filename.startswith(REPO + '/'):
            return self.local
        return None


def crashing(tool, argv, cwd, root, n=0, size=None, sig=None, broken=None):
    """Run a tool in a child that dies (or receives a signal) at line n, or
    whose files cannot grow beyond `size` bytes, or whose output breaks after
    `broken` bytes; (exit code or None if it died, lines reached). What the
    tool left to do at exit is done, unless it died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
            if size is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (size,) * 2)
            atexit._clear()
            signal.signal(signal.SIGINT, signal.default_int_handler)
            for s in (signal.SIGTERM, signal.SIGHUP):
                signal.signal(s, signal.SIG_DFL)
            k = Killer(n, sig)
            sys.settrace(k.top)
            try:
                x = T.run_inproc(tool, argv, cwd, root, broken)
                home = os.getcwd()
                os.chdir(cwd)
                sys.stdout = sys.stderr = io.StringIO()
                atexit._run_exitfuncs()
                os.chdir(home)
            finally:
                sys.settrace(None)
            os.write(w, b'%d %d %d' % (x.code, k.count,
                                       len(x.mon.escapes)))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as p:
        text = p.read()
    os.waitpid(pid, 0)
    if not text:
        return None, n
    code, count, esc = map(int, text.split())
    expect(not esc, '%s %s: operations outside its files', tool,
           ' '.join(argv))
    return code, count


SIGNALS = {'SIGINT': signal.SIGINT, 'SIGTERM': signal.SIGTERM,
           'SIGHUP': signal.SIGHUP}


class C28(Check):
    id = 'C28'
    rule = ('every tool on random sources, killed or interrupted by SIGINT, '
            'SIGTERM or SIGHUP at random and at the last lines it executes, '
            'or with its standard output broken, or with every file limited '
            'in size so that its writes fail part way: afterwards no file is lost or altered '
            'but documented outputs, the file given to the page generator '
            'still begins with all of its former text, a failed write is '
            'not a successful run, and a later complete run of the listing '
            'tool writes the listing of an undisturbed one. Distinct = '
            '(sources, tool, crash point) observed.')
    require = {'crashes': 900, 'failed_writes': 100, 'reruns': 100, 'signals': 900, 'broken_outputs': 150,
               'crashes genpages': 250, 'crashes listing': 250}

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(12000 if ctx.thorough else 400)):
            k = rng.random()
            if k < 0.45:
                c = C20.genpages_case(rng)
                c['kind'] = 'pages'
                if c['absent']:
                    continue
                if rng.random() < 0.3:
                    # more than a buffer of text
                    c['lines'] = c['lines'] + ['R  %d' % n
                                               for n in range(2000)]
            else:
                tool = rng.choice(['listing'] * 6 + VERBOSE)
                c = tool_case(rng, rng.choice([instr_card, M.symbol_card]),
                              rng.choice([3, 12, 12, 60]))
                c.update(kind='sources', tool=tool,
                         opts=base_options(rng, tool),
                         first=first_args(rng, tool))
                c['style'] = rng.choice(['plain', 'plain', 'link'])
            c['at'] = [rng.random() for _ in range(4)]
            c['end'] = [rng.randint(0, 25) for _ in range(3)]
            c['grow'] = [rng.choice([0, 1, 100, 5000, 10 ** 5, -1, -100])
                         for _ in range(3)]
            c['signals'] = [[rng.choice(['SIGINT', 'SIGINT', 'SIGTERM',
                                         'SIGHUP']),
                             rng.choice([rng.random(), rng.randint(1, 25)])]
                            for _ in range(4)]
            c['broken'] = rng.choice([0, 0, 1, 30, 200, 2000])
            yield c

    def run(self, ctx, case):
        with ctx.tmpdir() as top:
            n = 0

            def fresh():
                nonlocal n
                n += 1
                d = os.path.join(top, 'r%d' % n)
                os.mkdir(d)
                d = os.path.realpath(d)
                c = case
                if case['kind'] == 'pages':
                    name = case['name']
                    M.write_files(d, {name: case['lines']},
                                  [name] if case['nonl'] else [])
                    argv, outs = [name], {name}
                    cwd = d
                else:
                    c = placed(d, case)
                    cwd = c['cwd']
                    argv = command(case, case['opts'],
                                   case['first'] + c['tops'])
                    outs = set()
                    if case['tool'] == 'listing':
                        outs = {os.path.splitext(t)[0] + '.lst'
                                for t in case['tops']}
                with open(os.path.join(d, 'bystander'), 'w') as f:
                    f.write('x\n' * 50)
                return d, cwd, argv, outs
            tool = case['tool']
            d, cwd, argv, outs = fresh()
            before = T.tree(d)
            code, lines = crashing(tool, argv, cwd, d)
            whole = T.tree(d)
            if code is None or (code and case['kind'] == 'sources'):
                # killed by itself, or refused: nothing to crash into
                expect(code is not None, '%s %s died', tool, ' '.join(argv))
            size = max([len(v[2]) for k, v in whole.items()
                        if k in outs and v[2] is not None] or [0])
            plan = [('kill', max(1, int(lines * x))) for x in case['at']]
            plan += [('kill', max(1, lines - x)) for x in case['end']]
            plan += [(s, max(1, int(lines * x) if x < 1 else lines - int(x)))
                     for s, x in case['signals']]
            plan.append(('pipe', case['broken']))
            if outs and not code:
                old = max([len(v[2]) for k, v in before.items() if k in outs
                           and v[2] is not None] or [0])
                plan += [('limit', min(max(0, old + g), size - 1)
                          if size else 0) for g in case['grow']]
            for what, x in plan:
                d, cwd, argv, outs = fresh()
                before = T.tree(d)
                if what == 'kill':
                    code, _ = crashing(tool, argv, cwd, d, x)
                    how = '%s %s, killed at line %d of %d' % (
                        tool, ' '.join(argv), x, lines)
                    if code is None:
                        ctx.ev('crashes')
                        ctx.ev('crashes ' + tool)
                elif what == 'pipe':
                    code, _ = crashing(tool, argv, cwd, d, broken=x)
                    how = '%s %s, its output broken after %d bytes' % (
                        tool, ' '.join(argv), x)
                    ctx.ev('broken_outputs')
                elif what in SIGNALS:
                    code, _ = crashing(tool, argv, cwd, d, x,
                                       sig=SIGNALS[what])
                    how = '%s %s, %s at line %d of %d' % (
                        tool, ' '.join(argv), what, x, lines)
                    ctx.ev('signals')
                    ctx.ev('signals ' + what)
                else:
                    if not size:
                        continue
                    code, _ = crashing(tool, argv, cwd, d, 0, x)
                    how = '%s %s, files limited to %d bytes' % (
                        tool, ' '.join(argv), x)
                    expect(code not in (0, None), '%s: its output of %d bytes '
                           'cannot be written, but it ended with exit %s',
                           how, size, code)
                    ctx.ev('failed_writes')
                self.intact(how, before, T.tree(d), outs, tool)
                if tool == 'listing' and what != 'limit':
                    crashing(tool, argv, cwd, d)
                    after = T.tree(d)
                    for k in outs:
                        expect(after.get(k) == whole.get(k), '%s, and run '
                               'again: %s is not the listing of an '
                               'undisturbed run', how, k)
                    ctx.ev('reruns')
                ctx.state(tool, argv, what, x, case.get('lines'),
                          sorted(case.get('files', {}).items()))
            ctx.sample({'tool': tool, 'argv': argv, 'lines': lines,
                        'plan': plan})

    @staticmethod
    def intact(how, before, after, outs, tool):
        for k in sorted(set(before) | set(after)):
            if before.get(k) == after.get(k):
                continue
            expect(k in outs, '%s: %s was %s', how, k,
                   'created' if k not in before else
                   'deleted' if k not in after else 'modified')
            if tool == 'genpages':
                expect(k in after and after[k][:2] == before[k][:2] and
                       after[k][2].startswith(before[k][2]), '%s: %s lost '
                       'text: %d bytes before, %s now', how, k,
                       len(before[k][2]),
                       k in after and len(after[k][2]))
