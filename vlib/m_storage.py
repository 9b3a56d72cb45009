"""C06-C08: memory and registers, recorded histories against maps."""
import random

from .core import (Check, scribble, call, expect, expect_ok, expect_raises, expect_val,
                   steps, tighten)
from h800 import registers as R
from h800.memory import ExpansionMemoryModule, MemoryBank, MemoryModule

W48 = 2**48 - 1
BANKSIZE = 2048
NBANKS = {'bank': 1, 'module': 4, 'expansion': 8}


def mk(kind):
    return {'bank': MemoryBank, 'module': MemoryModule,
            'expansion': ExpansionMemoryModule}[kind]()


def getbank(kind, obj, b):
    return obj if kind == 'bank' else obj[b]


def addr_pool(rng):
    edge = [0, 1, 2, 2047, 2046, 1023, 1024, 511, 512, 255, 256, 2045, 1025]
    hot = [rng.randrange(BANKSIZE) for _ in range(6)]
    return edge + hot + [h ^ (1 << k) for h in hot[:2] for k in range(11)]


class C06(Check):
    id = 'C06'
    shrink = ('ops',)
    rule = ('histories of unique-valued writes, reads, half-open range '
            'reads/writes, clears, iterations (complete, partial, restarted) '
            'and refused operations over several live banks, modules and '
            'expansion modules, each step compared with a map of (store, '
            'bank, address) and the whole memory scanned at the end; plus '
            'full fills that give every address of every bank a unique '
            'value. Distinct = (history, address written) and end states.')
    require = {'writes': 5000, 'reads': 200000, 'slice_ops': 1000,
               'clears': 100, 'iterations': 100, 'nested_iterations': 20,
               'refused': 1000, 'fills': 8}

    def cases(self, ctx):
        rng = ctx.rng
        for i in ctx.mine(range(64 if ctx.thorough else 16)):
            yield {'kind': 'fill', 'rs': i,
                   'store': ['bank', 'module', 'expansion'][i % 3]}
        for i in ctx.mine(range(8)):
            yield {'kind': 'hammer', 'rs': i,
                   'n': 70000 if i < 2 else 12000,
                   'store': ['bank', 'module', 'expansion', 'bank'][i % 4]}
        for _ in range(ctx.share(4000 if ctx.thorough else 800)):
            stores = [rng.choice(['bank', 'bank', 'bank', 'module'])
                      for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < 0.1:
                stores.append('expansion')
            pool = addr_pool(rng)
            # a tight history repeats few values at few addresses
            tight = rng.random() < 0.25
            if tight:
                pool = rng.sample(pool, 2)
                pool.append(min(BANKSIZE - 1, pool[0] + 1))
                few = rng.sample([0, 1, 7, W48, 2**47, 12345], 2)
            ops = []
            uid = rng.getrandbits(20) << 26
            nslots = sum(NBANKS[s] for s in stores)
            for _ in range(steps(rng, [10, 40, 150], 1500)):
                t = rng.randrange(min(nslots, 2) if tight else nslots)
                k = rng.random()
                a = rng.choice(pool)
                uid = rng.choice(few) if tight else uid + 1
                if k < 0.40:
                    ops.append([t, 'w', a, uid if tight else rng.choice(
                        [uid, uid, uid, W48, 0, 1, 2**47])])
                elif k < 0.55:
                    ops.append([t, 'r', a])
                elif k < 0.65:
                    b = min(BANKSIZE, a + rng.choice([0, 1, 2, 5, 64, 700,
                                                      2048]))
                    ops.append([t, 'sw', a, b, uid if tight else rng.choice(
                        [uid, uid, uid, 0, 0, 1, W48])])
                elif k < 0.73:
                    b = min(BANKSIZE, a + rng.choice([0, 1, 3, 17, 900]))
                    ops.append([t, 'sr', a, b])
                elif k < 0.76:
                    ops.append([t, 'clear'])
                elif k < 0.79:
                    ops.append([t, 'iter', rng.choice(
                        [BANKSIZE, BANKSIZE, 0, 1, 7, 1000]),
                        rng.choice([None, None, 0, 1, 5, 800])])
                elif k < 0.84:
                    ops.append([t, 'badv', a, rng.choice(
                        [-1, 2**48, 2**48 + 5, -2**47, 2**50, -2**48, 2**64,
                         5 - 2**48, 2**96 + 1, -2**64])])
                elif k < 0.90:
                    ops.append([t, 'bada', rng.choice(
                        [-1, 2048, 2049, -2048, 4096, 10**6, -2, 8192, 2048 + a,
                         a - 2048 if a < 2048 else -1, 2**32 + a, 2**64])])
                elif k < 0.93:
                    lo, hi = rng.choice([
                        (2040, 2049), (2047, 2050), (2000, 2060),
                        (2047, 2049), (2048, 2049), (-1, 3), (-3, 1),
                        (-2048, -2047), (-1, 2048), (3000, 3002)])
                    ops.append([t, 'badslice', lo, hi, uid])
                elif k < 0.94:
                    ops.append([t, 'backward', a, max(0, a - rng.choice(
                        [1, 2, 40, 2000])), uid])
                elif k < 0.96:
                    ops.append([t, 'badbank', rng.choice(
                        [-1, 4, 8, 9, 100, 16, 256, -4, 2**32])])
                else:
                    ops.append([t, 'meta'])
            yield {'kind': 'history', 'stores': stores, 'ops': tighten(rng, ops),
                   'quiet': rng.random() < 0.3}

    @staticmethod
    def meta(kind, obj, bank):
        expect(len(bank) == BANKSIZE and bank.width == 48,
               'bank has length %r and width %r', len(bank), bank.width)
        if kind != 'bank':
            n = NBANKS[kind]
            expect(len(obj) == n, '%s has %r banks', kind, len(obj))
            expect(obj.size() == n * BANKSIZE, '%s has size %r', kind,
                   obj.size())

    @staticmethod
    def iterate(bank, want, what):
        got = [w.value for w in bank]
        expect(len(got) == BANKSIZE, '%s: iteration visited %d words', what,
               len(got))
        for a in range(BANKSIZE):
            expect(got[a] == want(a), '%s: iteration word %d is %r, should '
                   'be %r', what, a, got[a], want(a))

    def run(self, ctx, case):
        if case['kind'] in ('fill', 'hammer'):
            return getattr(self, case['kind'])(ctx, case)
        slots = []
        objs = []
        for kind in case['stores']:
            obj = mk(kind)
            objs.append((kind, obj))
            for b in range(NBANKS[kind]):
                slots.append((kind, obj, b))
        mem = [dict() for _ in slots]
        held = [getbank(*s) for s in slots]
        quiet = case.get('quiet')
        for k, op in enumerate(case['ops']):
            t, what = op[0], 'step %d %r' % (k, op)
            kind, obj, b = slots[t]
            # through the module, or through a bank taken from it before
            bank = held[t] if k % 3 == 0 else getbank(kind, obj, b)
            m = mem[t]
            if op[1] == 'w':
                expect_ok(call(bank.__setitem__, op[2], op[3]), what)
                m[op[2]] = op[3]
                ctx.ev('writes')
                ctx.state(t, op[2], op[3])
                if quiet:
                    continue
                expect_val(call(bank.__getitem__, op[2]), op[3],
                           what + ': read back')
                for q in range(len(slots)):
                    if q != t:
                        kq, oq, bq = slots[q]
                        expect_val(call(getbank(kq, oq, bq).__getitem__,
                                        op[2]), mem[q].get(op[2], 0),
                                   what + ': same address in store/bank %d',
                                   q)
                for d in (-1, 1):
                    a = op[2] + d
                    if 0 <= a < BANKSIZE:
                        expect_val(call(bank.__getitem__, a), m.get(a, 0),
                                   what + ': neighbour %d', a)
                ctx.ev('reads', 2 + len(slots))
            elif op[1] == 'r':
                expect_val(call(bank.__getitem__, op[2]), m.get(op[2], 0),
                           what)
                ctx.ev('reads')
            elif op[1] == 'sw':
                expect_ok(call(bank.__setitem__, slice(op[2], op[3]), op[4]),
                          what)
                for a in range(op[2], op[3]):
                    m[a] = op[4]
                ctx.ev('slice_ops')
                if quiet:
                    continue
                for a in range(max(0, op[2] - 2),
                               min(BANKSIZE, op[3] + 2)):
                    expect_val(call(bank.__getitem__, a), m.get(a, 0),
                               what + ': address %d', a)
            elif op[1] == 'sr':
                r = expect_ok(call(bank.__getitem__, slice(op[2], op[3])),
                              what)
                want = [m.get(a, 0) for a in range(op[2], op[3])]
                expect(list(r) == want, '%s: read %r, should be %r', what, r,
                       want)
                scribble(r)
                ctx.ev('slice_ops')
            elif op[1] == 'backward':
                # no address is at or after the start and before the end
                r = call(bank.__setitem__, slice(op[2], op[3]), op[4])
                r = call(bank.__getitem__, slice(op[2], op[3]))
                expect(not r.ok or list(r.val) == [], '%s: read %r', what,
                       r.val)
                ctx.ev('slice_ops')
                if not quiet:
                    for a in range(max(0, op[3] - 2),
                                   min(BANKSIZE, op[2] + 2)):
                        expect_val(call(bank.__getitem__, a), m.get(a, 0),
                                   what + ': address %d', a)
            elif op[1] == 'clear':
                expect_ok(call(bank.clear), what)
                m.clear()
                ctx.ev('clears')
                if quiet:
                    continue
                for a in range(0, BANKSIZE, 1):
                    expect(bank[a] == 0, '%s: address %d holds %r after '
                           'clear', what, a, bank[a])
            elif op[1] == 'iter':
                if op[2] == BANKSIZE:
                    self.iterate(bank, lambda a: m.get(a, 0), what)
                else:
                    n = 0
                    for wd in bank:
                        if n == op[3]:
                            # a second iteration while one is under way
                            self.iterate(bank, lambda a: m.get(a, 0),
                                         what + ' (nested)')
                            ctx.ev('nested_iterations')
                        if n >= op[2]:
                            break
                        expect(wd.value == m.get(n, 0), '%s: word %d of a '
                               'fresh iteration is %r, should be %r', what, n,
                               wd.value, m.get(n, 0))
                        n += 1
                    expect(n == op[2], '%s: iteration stopped after %d', what,
                           n)
                ctx.ev('iterations')
            elif op[1] == 'badv':
                expect_raises(call(bank.__setitem__, op[2], op[3]),
                              ValueError, what)
                expect_val(call(bank.__getitem__, op[2]), m.get(op[2], 0),
                           what + ': after refusal')
                e = min(BANKSIZE, op[2] + 3)
                expect_raises(call(bank.__setitem__, slice(op[2], e), op[3]),
                              ValueError, what + ' (range)')
                for a in range(op[2], e):
                    expect_val(call(bank.__getitem__, a), m.get(a, 0),
                               what + ': after refusal, address %d', a)
                ctx.ev('refused')
            elif op[1] == 'bada':
                expect_raises(call(bank.__getitem__, op[2]), Exception, what)
                expect_raises(call(bank.__setitem__, op[2], 5), Exception,
                              what)
                expect(len(bank) == BANKSIZE, '%s: bank grew to %d', what,
                       len(bank))
                ctx.ev('refused')
            elif op[1] == 'badslice':
                expect_raises(call(bank.__getitem__, slice(op[2], op[3])),
                              Exception, what)
                expect_raises(call(bank.__setitem__, slice(op[2], op[3]),
                                   op[4]), Exception, what)
                expect(len(bank) == BANKSIZE, '%s: bank grew to %d', what,
                       len(bank))
                for a in range(max(0, op[2]), min(BANKSIZE, op[3])):
                    got = bank[a]
                    expect(got in (m.get(a, 0), op[4]), '%s: address %d holds'
                           ' %r', what, a, got)
                    m[a] = got
                ctx.ev('refused')
            elif op[1] == 'badbank':
                if kind != 'bank' and not 0 <= op[2] < NBANKS[kind]:
                    expect_raises(call(obj.__getitem__, op[2]), Exception,
                                  what)
                    lo, hi = (op[2], 1) if op[2] < 0 else (0, op[2] + 1)
                    expect_raises(call(obj.__getitem__, slice(lo, hi)),
                                  Exception, what + ' (as a range)')
                    expect(len(obj) == NBANKS[kind], '%s: now %d banks', what,
                           len(obj))
                    ctx.ev('refused')
            else:
                self.meta(kind, obj, bank)
                if kind != 'bank':
                    n = NBANKS[kind]
                    bs = obj[0:n]
                    expect(len(bs) == n, '%s: slice gave %d banks', what,
                           len(bs))
                    for i in range(n):
                        expect(bs[i] is obj[i] or
                               all(bs[i][a] == obj[i][a]
                                   for a in range(BANKSIZE)),
                               '%s: bank slice element %d differs', what, i)
                    bs = obj[1:3]
                    expect(len(bs) == 2 and bs[0] is obj[1] and
                           bs[1] is obj[2], '%s: bank slice [1:3]', what)
                    scribble(bs)
        for t, (kind, obj, b) in enumerate(slots):
            bank = getbank(kind, obj, b)
            m = mem[t]
            for a in range(BANKSIZE):
                v = bank[a]
                expect(held[t][a] == v, 'at the end: store/bank %d address '
                       '%d holds %r, but %r in the bank taken from the '
                       'module at the start', t, a, v, held[t][a])
                expect(v == m.get(a, 0), 'at the end: store/bank %d address '
                       '%d holds %r, last written %r', t, a, v, m.get(a, 0))
            self.iterate(bank, lambda a: m.get(a, 0), 'at the end')
            self.meta(kind, obj, bank)
            ctx.ev('iterations')
            ctx.ev('reads', BANKSIZE)
            ctx.state('end', sorted(m.items()))
        ctx.sample({'stores': case['stores'], 'ops': case['ops'][:6]})

    def hammer(self, ctx, case):
        """Tens of thousands of writes to one bank."""
        rng = random.Random('c06h/%d' % case['rs'])
        obj = mk(case['store'])
        bank = getbank(case['store'], obj, 0)
        pool = addr_pool(rng)[:4] + [rng.randrange(BANKSIZE)]
        m = {}
        for k in range(case['n']):
            a, v = rng.choice(pool), rng.getrandbits(48)
            bank[a] = v
            m[a] = v
            b = a if k % 3 else rng.choice(pool)
            expect(bank[b] == m.get(b, 0), 'write %d to a %s: address %d '
                   'holds %r, last written %r', k + 1, case['store'], b,
                   bank[b], m.get(b, 0))
            if k % 5000 == 4999:
                bank.clear()
                m = {}
        for a in range(BANKSIZE):
            expect(bank[a] == m.get(a, 0), 'after %d writes address %d holds '
                   '%r, last written %r', case['n'], a, bank[a], m.get(a, 0))
        ctx.ev('writes', case['n'])
        ctx.ev('reads', case['n'] + BANKSIZE)

    def fill(self, ctx, case):
        rng = random.Random('c06/%d' % case['rs'])
        kind = case['store']
        obj = mk(kind)
        n = NBANKS[kind]
        for b in range(n):
            bank = getbank(kind, obj, b)
            self.meta(kind, obj, bank)
            for a in range(BANKSIZE):
                expect(bank[a] == 0, 'new %s: bank %d address %d holds %r',
                       kind, b, a, bank[a])
        order = [(b, a) for b in range(n) for a in range(BANKSIZE)]
        rng.shuffle(order)
        base = rng.getrandbits(30) << 18
        for i, (b, a) in enumerate(order):
            getbank(kind, obj, b)[a] = base + i
        for i, (b, a) in enumerate(order):
            v = getbank(kind, obj, b)[a]
            expect(v == base + i, 'full %s: bank %d address %d holds write '
                   '#%d, last write was #%d', kind, b, a, v - base, i)
        where = {x: i for i, x in enumerate(order)}
        for b in range(n):
            bank = getbank(kind, obj, b)
            want = [base + where[b, a] for a in range(BANKSIZE)]
            for rep in range(2):
                self.iterate(bank, lambda a: want[a],
                             'full %s bank %d, pass %d' % (kind, b, rep))
            vals = [int(x, 8) for x in repr(bank).split()]
            expect(vals == want, 'full %s: text of bank %d does not list '
                   'its contents', kind, b)
            expect(bank[0:BANKSIZE] == want, 'full %s: bank %d read as a '
                   'range differs', kind, b)
        dead = rng.randrange(n)
        getbank(kind, obj, dead).clear()
        for b in range(n):
            bank = getbank(kind, obj, b)
            for a in range(BANKSIZE):
                w = 0 if b == dead else base + where[b, a]
                expect(bank[a] == w, '%s: after clearing bank %d, bank %d '
                       'address %d holds %r', kind, dead, b, a, bank[a])
        ctx.ev('fills')
        ctx.ev('reads', 3 * n * BANKSIZE)
        ctx.ev('writes', n * BANKSIZE)
        ctx.ev('clears')
        ctx.ev('iterations', 2 * n)
        ctx.state('fill', kind, case['rs'])
        ctx.sample(case)


NAMES = ['AU1', 'AU2', 'SC', 'CSC', 'SH', 'CSH', 'UTR', 'MXR',
         'X0', 'X1', 'X2', 'X3', 'X4', 'X5', 'X6', 'X7',
         'R0', 'R1', 'R2', 'R3', 'R4', 'R5', 'R6', 'R7',
         'S0', 'S1', 'S2', 'S3', 'S4', 'S5', 'S6', 'S7']
ALIAS = {28: 'RAC', 29: 'DRAC', 30: 'WAC', 31: 'DWAC'}
BADNAMES = ['', 'x0', 'X8', 'R8', 'S8', 'AU0', 'AU3', 'AU', 'sc', 'SC ',
            ' SC', 'S', 'X', 'R', 'PC', 'MX', 'UT', 'CS', 'Z0', 'X00', 'S10',
            'None', '0', '31', 'RACS', 'AC']


def handles_survive_clear(w):
    """Whether a register reached before a clear is the one reached after
    it (a clear may as well install new registers)."""
    rs = R.Registers(width=w)
    g, r = rs[3], rs[3][5]
    g.clear()
    rs.clear()
    return rs[3] is g and g[5] is r and g['CSH'] is r


class C07(Check):
    id = 'C07'
    shrink = ('ops',)
    rule = ('histories over single registers, groups and full register sets '
            'of both widths: whole, bit and range writes by number and by '
            'name, clears (repeated), replacements, iterations (complete, '
            'partial, restarted), refused operations; each step compared with '
            'a map of (set, group, register) and everything re-read by number '
            'and by name at the end. Distinct = (width, group, register, '
            'value) observed.')
    require = {'writes': 5000, 'reads': 100000, 'clears': 300,
               'iterations': 300, 'nested_iterations': 50,
               'refused': 2000, 'replacements': 100,
               'fills': 8}
    assumptions = ['re-iteration of a whole register set is recorded as a '
                   'known finding (the existing test suite depends on it)']

    def cases(self, ctx):
        rng = ctx.rng
        for i in ctx.mine(range(64 if ctx.thorough else 16)):
            yield {'kind': 'fill', 'rs': i, 'width': [16, 24][i % 2]}
        for first in range(ctx.share(40000 if ctx.thorough else 6000)):
            w = rng.choice([16, 24])
            what = rng.choice(['group', 'set', 'set', 'register'])
            nobj = 1 if not first else rng.choice([1, 2, 3]) if what != 'set' else \
                rng.choice([1, 2])
            ops = []
            hot = [rng.randrange(32) for _ in range(5)] + [0, 31, 8, 28]
            for _ in range(steps(rng, [10, 40, 120], 1500) if first else
                           20000):
                o, g, r = rng.randrange(nobj), rng.randrange(8), \
                    rng.choice(hot)
                byname = rng.random() < 0.5
                k = rng.random()
                loc = [o, g, r, byname]
                if k < 0.35:
                    ops.append(['w', loc, rng.choice(
                        [rng.getrandbits(w), 0, 2**w - 1, 1, 2**(w - 1)])])
                elif k < 0.45:
                    ops.append(['bit', loc, rng.choice(
                        [rng.randint(1, w), rng.randint(0, w + 1),
                         rng.choice([0, -1, w + 1, w + 8, 24, 48])]),
                                rng.choice([0, 1, 1, 2, -1])])
                elif k < 0.55:
                    a, b = sorted([rng.randint(1, w), rng.randint(1, w)])
                    if rng.random() < 0.15:
                        a, b = rng.choice([(b, a), (0, b), (a, w + 1),
                                           (-a, b), (w + 1, w + 3)])
                    n = max(1, b - a + 1)
                    ops.append(['range', loc, a, b, rng.choice(
                        [rng.getrandbits(n), 2**n - 1, 2**n, 0, -1,
                         rng.choice([-2**n, 2**64, 2**w + 1, 1 - 2**w])])])
                elif k < 0.62:
                    ops.append(['r', loc])
                elif k < 0.66:
                    ops.append(['clearreg', loc])
                elif k < 0.70:
                    ops.append(['cleargroup', loc])
                elif k < 0.73:
                    ops.append(['clearall', loc])
                elif k < 0.78:
                    ops.append(['iter', loc, rng.choice([32, 32, 0, 1, 9]),
                                rng.choice([None, None, 0, 1, 5, 20])])
                elif k < 0.79:
                    ops.append(['iterw', loc, rng.getrandbits(16)])
                elif k < 0.80:
                    ops.append(['iterset', loc, rng.choice([8, 8, 3])])
                elif k < 0.86:
                    ops.append(['badv', loc, rng.choice(
                        [-1, 2**w, 2**w + 1, 2**24 + 1, -2**15, -2**w, 3 - 2**w,
                         2**48, 2**64 + 1])])
                elif k < 0.92:
                    ops.append(['badloc', loc, rng.choice(
                        [-1, 32, 33, 100, -32, -2, 64, 256 + r, r - 32, 32 + r,
                         r + rng.choice([1, -1]) * 2 ** rng.choice(
                             [8, 12, 16, 31, 32, 64])] +
                        BADNAMES)])
                elif k < 0.96:
                    ops.append(['newreg', loc, rng.getrandbits(16),
                                rng.choice([w, w, w, 16, 24])])
                elif k < 0.98:
                    ops.append(['newgroup', loc, rng.getrandbits(16),
                                rng.choice([w, w, w, 16, 24])])
                else:
                    ops.append(['badgroup', loc, rng.choice(
                        [-1, 8, 9, 100, -8, 'X0', '0', 16, 256, g - 8, g + 8,
                         g + rng.choice([1, -1]) * 2 ** rng.choice(
                             [8, 12, 16, 31, 32, 64])])])
            yield {'kind': 'history', 'what': what, 'nobj': nobj, 'width': w,
                   'ops': tighten(rng, ops), 'quiet': rng.random() < 0.3,
                   'held': rng.random() < 0.4}

    def run(self, ctx, case):
        if case['kind'] == 'fill':
            return self.fill(ctx, case)
        w0, what0, nobj = case['width'], case['what'], case['nobj']
        w = w0
        quiet = case.get('quiet')
        keep = case.get('held') and handles_survive_clear(w0)
        handles, groups, widths = {}, {}, {}
        ng = {'register': 1, 'group': 1, 'set': 8}[what0]
        nr = 1 if what0 == 'register' else 32
        if what0 == 'register':
            objs = [R.Register(width=w) for _ in range(nobj)]
        elif what0 == 'group':
            objs = [R.RegisterGroup(w) for _ in range(nobj)]
        else:
            objs = [R.Registers(width=w) for _ in range(nobj)]
        mem = {}
        cursor = [0] * nobj

        def group(o, g):
            if keep and what0 == 'set':
                # the group reached at the first use
                if (o, g) not in groups:
                    groups[o, g] = objs[o][g]
                return groups[o, g]
            return objs[o] if what0 == 'group' else objs[o][g]

        def reg(o, g, r, byname=False):
            if what0 == 'register':
                return objs[o]
            return group(o, g)[NAMES[r] if byname else r]

        def handle(o, g, r, byname):
            # the register as reached at its first use
            if not keep:
                return reg(o, g, r, byname)
            if (o, g, r) not in handles:
                handles[o, g, r] = reg(o, g, r, byname)
            return handles[o, g, r]

        def val(o, g, r):
            return mem.get((o, g, r), 0)

        for k, op in enumerate(case['ops']):
            o, g, r, byname = op[1]
            g, r = g % ng, r % nr
            w = widths.get((o, g, r), widths.get((o, g), w0))
            what = 'width %d step %d %r' % (w, k, op)
            cur = val(o, g, r)
            kind = op[0]
            x = expect_ok(call(handle, o, g, r, byname), what)
            if kind in ('w', 'badv'):
                res = call(setattr, x, 'value', op[2])
                if 0 <= op[2] < 2**w:
                    expect_ok(res, what)
                    mem[o, g, r] = op[2]
                    ctx.ev('writes')
                else:
                    expect_raises(res, ValueError, what)
                    ctx.ev('refused')
            elif kind == 'bit':
                res = call(x.__setitem__, op[2], op[3])
                if 1 <= op[2] <= w and op[3] in (0, 1):
                    expect_ok(res, what)
                    bm = 1 << (w - op[2])
                    mem[o, g, r] = (cur | bm) if op[3] else cur & ~bm
                    ctx.ev('writes')
                else:
                    expect_raises(res, ValueError, what)
                    ctx.ev('refused')
                if 1 <= op[2] <= w:
                    expect_val(call(x.__getitem__, op[2]),
                               (val(o, g, r) >> (w - op[2])) & 1,
                               what + ': read of the bit')
                else:
                    expect_raises(call(x.__getitem__, op[2]), ValueError,
                                  what + ': read of the bit')
            elif kind == 'range':
                n = op[3] - op[2] + 1
                sh = w - op[3]
                res = call(x.__setitem__, slice(op[2], op[3]), op[4])
                if not 1 <= op[2] <= op[3] <= w:
                    expect_raises(res, ValueError, what)
                    ctx.ev('refused')
                elif 0 <= op[4] < 2**n:
                    expect_ok(res, what)
                    mem[o, g, r] = (cur & ~((2**n - 1) << sh)) | (op[4] << sh)
                    ctx.ev('writes')
                else:
                    expect_raises(res, ValueError, what)
                    ctx.ev('refused')
                if 1 <= op[2] <= op[3] <= w:
                    expect_val(call(x.__getitem__, slice(op[2], op[3])),
                               (val(o, g, r) >> sh) & (2**n - 1),
                               what + ': read of the range')
                else:
                    expect_raises(call(x.__getitem__, slice(op[2], op[3])),
                                  ValueError, what + ': read of the range')
            elif kind == 'clearreg':
                expect_ok(call(x.clear), what)
                mem.pop((o, g, r), None)
                ctx.ev('clears')
            elif kind == 'cleargroup' and what0 != 'register':
                expect_ok(call(group(o, g).clear), what)
                for i in range(32):
                    mem.pop((o, g, i), None)
                if not quiet:
                    self.scan(ctx, case, reg, val, o, [g], what)
                ctx.ev('clears')
            elif kind == 'clearall' and what0 == 'set':
                expect_ok(call(objs[o].clear), what)
                for key in list(mem):
                    if key[0] == o:
                        del mem[key]
                if not quiet:
                    self.scan(ctx, case, reg, val, o, range(8), what)
                ctx.ev('clears')
            elif kind == 'iter' and what0 != 'register':
                n = 0
                for y in group(o, g):
                    if n == op[3]:
                        # a second iteration while one is under way
                        got = [z.value for z in group(o, g)]
                        expect(got == [val(o, g, i) for i in range(32)],
                               '%s: a nested iteration sees %r', what, got)
                        ctx.ev('nested_iterations')
                    if n >= op[2]:
                        break
                    expect(y.value == val(o, g, n), '%s: register %d of a '
                           'fresh iteration holds %r, should be %r', what, n,
                           y.value, val(o, g, n))
                    expect(y is reg(o, g, n) or y.name == NAMES[n],
                           '%s: register %d of the iteration is %s', what, n,
                           y.name)
                    n += 1
                expect(n == op[2], '%s: iteration visited %d', what, n)
                ctx.ev('iterations')
            elif kind == 'iterw' and what0 != 'register':
                # the member an iteration visits is the register itself
                for n, y in enumerate(group(o, g)):
                    if n == r:
                        expect_ok(call(setattr, y, 'value', op[2]), what)
                        mem[o, g, r] = op[2]
                ctx.ev('writes')
            elif kind == 'iterset' and what0 == 'set':
                self.iterset(ctx, objs[o], op[2], cursor, o, what)
            elif kind == 'badloc' and what0 != 'register':
                gr = group(o, g)
                expect_raises(call(gr.__getitem__, op[2]), ValueError, what)
                expect_raises(call(gr.__setitem__, op[2],
                                   R.Register(width=w)), ValueError,
                              what + ' (assignment)')
                expect(len(gr) == 32, '%s: group has %d registers', what,
                       len(gr))
                ctx.ev('refused', 2)
            elif kind == 'badgroup' and what0 == 'set':
                expect_raises(call(objs[o].__getitem__, op[2]), ValueError,
                              what)
                expect_raises(call(objs[o].__setitem__, op[2],
                                   R.RegisterGroup(w)), ValueError,
                              what + ' (assignment)')
                expect(len(objs[o]) == 8, '%s: set has %d groups', what,
                       len(objs[o]))
                ctx.ev('refused', 2)
            elif kind == 'newreg' and what0 != 'register':
                wn = op[3] if len(op) > 3 else w
                y = R.Register(op[2], NAMES[r], wn)
                expect_ok(call(group(o, g).__setitem__,
                               NAMES[r] if byname else r, y), what)
                mem[o, g, r] = op[2]
                handles[o, g, r] = y
                widths[o, g, r] = w = wn
                if y is not x:
                    x.value = 1     # no longer part of the group
                expect(quiet or reg(o, g, r) is y and reg(o, g, r, True) is y,
                       '%s: the register was not replaced', what)
                ctx.ev('replacements')
            elif kind == 'newgroup' and what0 == 'set':
                w = op[3] if len(op) > 3 else w
                y = R.RegisterGroup(w)
                y[r].value = op[2]
                expect_ok(call(objs[o].__setitem__, g, y), what)
                for i in range(32):
                    mem.pop((o, g, i), None)
                    handles.pop((o, g, i), None)
                    widths.pop((o, g, i), None)
                widths[o, g] = w
                groups[o, g] = y
                mem[o, g, r] = op[2]
                expect(objs[o][g] is y, '%s: the group was not replaced',
                       what)
                if not quiet:
                    self.scan(ctx, case, reg, val, o, [g], what)
                ctx.ev('replacements')
            if quiet:
                # nothing but the operation itself, so that what it leaves
                # behind is not tidied up by looking at the registers
                v = val(o, g, r)
                expect(handle(o, g, r, byname).value == v, '%s: register '
                       'reads %r, should be %r', what,
                       handle(o, g, r, byname).value, v)
                ctx.ev('quiet_steps')
                continue
            # the touched register, its twin names, and bystanders
            v = val(o, g, r)
            for bn in (False, True):
                y = reg(o, g, r, bn)
                expect(y.value == v, '%s: register reads %r, should be %r',
                       what, y.value, v)
            expect(int(repr(y), 8) == v and len(y) == w and y.width == w,
                   '%s: text %r length %r width %r', what, repr(y), len(y),
                   y.width)
            for q in range(nobj):
                for h in {g, (g + 1) % ng, (g - 1) % ng}:
                    for s in {r, (r + 1) % nr, (r - 1) % nr, r ^ 16 if
                              nr > 1 else 0, r ^ 8 if nr > 1 else 0}:
                        z = reg(q, h, s)
                        expect(z.value == val(q, h, s), '%s: bystander '
                               'register (object %d, group %d, number %d) '
                               'reads %r, should be %r', what, q, h, s,
                               z.value, val(q, h, s))
                        ctx.ev('reads')
            ctx.state(w, g, r, v)
        for (o, g, r), x in handles.items():
            expect(x.value == val(o, g, r), 'at the end: register %d.%d as '
                   'reached before reads %r, should be %r', g, r, x.value,
                   val(o, g, r))
        keep = False
        for o in range(nobj):
            self.scan(ctx, case, reg, val, o, range(ng), 'at the end')
            if what0 == 'set':
                expect(len(objs[o]) == 8 and objs[o].width == w0,
                       'set reports %r groups and width %r', len(objs[o]),
                       objs[o].width)
        ctx.sample({'what': what0, 'width': w, 'ops': case['ops'][:5]})

    def iterset(self, ctx, regs, n, cursor, o, what):
        """Iterate a whole set; n < 8 stops early."""
        got = []
        for grp in regs:
            got.append(grp)
            if len(got) >= n:
                break
        want = [regs[i] for i in range(8)][:n]
        same = len(got) == len(want) and all(a is b for a, b in
                                             zip(got, want))
        if not same:
            rest = [regs[i] for i in range(cursor[o], 8)][:n]
            expect(cursor[o] > 0 and len(got) == len(rest) and
                   all(a is b for a, b in zip(got, rest)),
                   '%s: iteration over the set visited %d groups, not the '
                   'groups in order', what, len(got))
            ctx.finding('registers-reiteration')
        cursor[o] = min(8, cursor[o] + len(got))
        ctx.ev('iterations')

    def scan(self, ctx, case, reg, val, o, groups, what):
        nr = 1 if case['what'] == 'register' else 32
        for g in groups:
            for r in range(nr):
                for bn in (False, True):
                    v = reg(o, g, r, bn).value
                    expect(v == val(o, g, r), '%s: group %d register %s '
                           'reads %r, should be %r', what, g,
                           NAMES[r] if bn else r, v, val(o, g, r))
                    if nr > 1:
                        nm = reg(o, g, r, bn).name
                        expect(nm == NAMES[r], '%s: group %d register %d is '
                               'named %r', what, g, r, nm)
            ctx.ev('reads', 2 * nr)

    def fill(self, ctx, case):
        rng = random.Random('c07/%d' % case['rs'])
        w = case['width']
        regs = R.Registers(width=w)
        expect(len(regs) == 8 and regs.width == w, 'set reports %r groups, '
               'width %r', len(regs), regs.width)
        for rnd in range(4):
            vals = rng.sample(range(1, 2**w), 256)
            locs = [(g, r) for g in range(8) for r in range(32)]
            rng.shuffle(locs)
            for (g, r), v in zip(locs, vals):
                regs[g][NAMES[r] if v & 1 else r].value = v
            for (g, r), v in zip(locs, vals):
                a, b = regs[g][r].value, regs[g][NAMES[r]].value
                expect(a == v and b == v, 'round %d: group %d register %d '
                       'reads %r by number and %r by name, last written %r',
                       rnd, g, r, a, b, v)
                ctx.state(w, g, r, v)
            d = dict(zip(locs, vals))
            for g in range(8):
                for rep in range(2):
                    got = [x.value for x in regs[g]]
                    want = [d[g, r] for r in range(32)]
                    expect(got == want, 'round %d: pass %d over group %d '
                           'saw %r, should be %r', rnd, rep, g, got, want)
                got = [int(x, 8) for x in repr(regs[g]).split()]
                expect(got == want, 'text of group %d: %r, should be %r', g,
                       got, want)
                expect(len(regs[g]) == 32 and regs[g].width == w,
                       'group %d: length %r width %r', g, len(regs[g]),
                       regs[g].width)
                ctx.ev('iterations', 2)
            dead = rng.randrange(8)
            regs[dead].clear()
            for g, r in locs:
                want = 0 if g == dead else d[g, r]
                expect(regs[g][r].value == want, 'round %d: after clearing '
                       'group %d, group %d register %d reads %r, should be '
                       '%r', rnd, dead, g, r, regs[g][r].value, want)
            regs.clear()
            for g, r in locs:
                expect(regs[g][r].value == 0, 'round %d: after clear, group '
                       '%d register %d reads %r', rnd, g, r,
                       regs[g][r].value)
            ctx.ev('clears', 2)
            ctx.ev('reads', 4 * 256)
            ctx.ev('writes', 256)
        for v in (-1, 2**w, 2**w + 1, 2**32):
            expect_raises(call(R.Register, v, None, w), ValueError,
                          'Register(%d, width %d)', v, w)
        for v in (0, 1, 2**w - 1, rng.getrandbits(w)):
            x = expect_ok(call(R.Register, v, None, w), 'Register(%d)', v)
            expect(x.value == v and x.width == w and len(x) == w and
                   x.name is None, 'Register(%d): value %r width %r', v,
                   x.value, x.width)
            x = R.Register(data=v, name=NAMES[case['rs'] % 32], width=w)
            expect(x.value == v and x.name == NAMES[case['rs'] % 32],
                   'Register(%d): value %r name %r', v, x.value, x.name)
        for bad in (0, 1, 8, 15, 17, 20, 23, 25, 32, 48, 64):
            expect_raises(call(R.Register, 0, None, bad), ValueError,
                          'Register of width %d', bad)
            expect_raises(call(R.RegisterGroup, bad), ValueError,
                          'RegisterGroup of width %d', bad)
            expect_raises(call(R.Registers, bad), ValueError,
                          'Registers of width %d', bad)
            ctx.ev('refused', 3)
        expect_raises(call(R.Register, 0, 'X9', w), ValueError,
                      'Register named X9')
        for key in (slice(0, 2), slice(0, 32)):
            for t in (regs, regs[0]):
                expect_raises(call(t.__getitem__, key), ValueError,
                              'slice of registers')
                ctx.ev('refused')
        expect(R.RegisterGroup().width == 16 and R.Registers().width == 16
               and R.Register().width == 16, 'default width is not 16')
        ctx.ev('fills')
        ctx.sample(case)


class C08(Check):
    id = 'C08'
    rule = ('all 32 numbers, all 36 names, all integers -2000..5000 and '
            'powers of two beyond, all one- and two-edit neighbours of valid '
            'names drawn at random; each conversion compared with the PRM '
            'list; names of every register re-read along random histories of '
            'writes, clears, replacements and refused writes. Distinct = '
            '(conversion, argument) observed.')
    require = {'names': 32, 'refused': 10000, 'named': 10000}

    def cases(self, ctx):
        for i in ctx.mine(range(32)):
            yield {'kind': 'number', 'n': i}
        for i in ctx.mine(range(-2000, 5000, 50)):
            yield {'kind': 'badnumbers', 'from': i}
        for i in ctx.mine(range(400 if ctx.thorough else 40)):
            yield {'kind': 'badnames', 'rs': i + 1000 * ctx.seed}
            yield {'kind': 'history', 'rs': i + 1000 * ctx.seed}

    def named(self, ctx, g, when):
        for n in range(32):
            expect(g[n].name == NAMES[n] and g[NAMES[n]].name == NAMES[n],
                   'register %d of a group is named %r (%r by its name) %s',
                   n, g[n].name, g[NAMES[n]].name, when)
        seen = [r.name for r in g]
        expect(seen == NAMES, 'group iteration names %r %s', seen, when)
        ctx.ev('named', 32)

    def history(self, ctx, case):
        rng = random.Random(case['rs'])
        w = rng.choice([16, 24])
        regs = R.Registers(w)
        done = []
        for _ in range(rng.randrange(1, 8)):
            g = regs[rng.randrange(8)]
            n = rng.randrange(32)
            op = rng.choice(['write', 'clear', 'cleargroup', 'clearall',
                             'replace', 'refused', 'bit', 'group'])
            done.append(op)
            if op == 'write':
                g[rng.choice([n, NAMES[n]])].value = rng.randrange(2 ** w)
            elif op == 'bit':
                g[n][rng.randrange(1, w + 1)] = 1
            elif op == 'clear':
                g[n].clear()
            elif op == 'cleargroup':
                g.clear()
            elif op == 'clearall':
                regs.clear()
            elif op == 'replace':
                g[rng.choice([n, NAMES[n]])] = R.Register(
                    rng.randrange(2 ** w), NAMES[n], w)
            elif op == 'group':
                regs[rng.randrange(8)] = R.RegisterGroup(w)
            else:
                expect_raises(call(setattr, g[n], 'value', 2 ** w),
                              ValueError, 'a value that does not fit')
            self.named(ctx, g, 'after ' + ', '.join(done))
            ctx.state('history', op, w)
        for k in range(8):
            self.named(ctx, regs[k], '(group %d) after %s'
                       % (k, ', '.join(done)))
        for n in range(32):
            expect_val(call(R.registerName, n), NAMES[n], 'registerName(%d)',
                       n)
            expect_val(call(R.registerNumber, NAMES[n]), n,
                       'registerNumber(%s)', NAMES[n])
            expect_val(call(R.registerAlias, n), ALIAS.get(n, NAMES[n]),
                       'registerAlias(%d)', n)
        ctx.sample(case)

    def run(self, ctx, case):
        if case['kind'] == 'history':
            self.history(ctx, case)
        elif case['kind'] == 'number':
            n = case['n']
            expect_val(call(R.registerName, n), NAMES[n], 'registerName(%d)',
                       n)
            expect_val(call(R.registerNumber, NAMES[n]), n,
                       'registerNumber(%s)', NAMES[n])
            expect_val(call(R.registerAlias, n), ALIAS.get(n, NAMES[n]),
                       'registerAlias(%d)', n)
            if n in ALIAS:
                expect_val(call(R.registerNumber, ALIAS[n]), n,
                           'registerNumber(%s)', ALIAS[n])
                x = expect_ok(call(R.Register, 0, ALIAS[n]),
                              'Register named %s', ALIAS[n])
            for w in (16, 24):
                g = R.RegisterGroup(w)
                expect(g[n].name == NAMES[n] and g[NAMES[n]].name == NAMES[n],
                       'register %d of a group is named %r', n, g[n].name)
                for grp in range(8):
                    nm = R.Registers(w)[grp][n].name
                    expect(nm == NAMES[n], 'group %d register %d is named %r',
                           grp, n, nm)
                seen = [r.name for r in g]
                expect(seen == NAMES, 'group iteration names %r', seen)
            x = expect_ok(call(R.Register, 0, NAMES[n]), 'Register named %s',
                          NAMES[n])
            expect(x.name == NAMES[n], 'register named %r', x.name)
            ctx.ev('names')
            ctx.state('n', n)
            ctx.sample(case)
        elif case['kind'] == 'badnumbers':
            for n in list(range(case['from'], case['from'] + 50)) + \
                    [2**k for k in range(5, 40)] + [-2**k for k in range(20)]:
                if 0 <= n < 32:
                    continue
                for f in (R.registerName, R.registerAlias):
                    expect_raises(call(f, n), ValueError, '%s(%d)',
                                  f.__name__, n)
                ctx.ev('refused', 2)
                ctx.state('bad', n)
        else:
            rng = random.Random(case['rs'])
            good = set(NAMES) | set(ALIAS.values())
            for _ in range(100):
                s = list(rng.choice(sorted(good)))
                for _ in range(rng.choice([1, 1, 2])):
                    k = rng.randrange(4)
                    p = rng.randrange(len(s) + 1)
                    c = rng.choice('ABCDRSXWUTMH0123456789 x_-')
                    if k == 0:
                        s.insert(p, c)
                    elif k == 1 and s:
                        s.pop(p % len(s))
                    elif k == 2 and s:
                        s[p % len(s)] = c
                    elif s:
                        s[p % len(s)] = s[p % len(s)].lower()
                s = ''.join(s)
                if s in good:
                    continue
                for t in [s] + [b for b in BADNAMES if rng.random() < 0.2]:
                    expect_raises(call(R.registerNumber, t), ValueError,
                                  'registerNumber(%r)', t)
                    if t:
                        expect_raises(call(R.Register, 0, t), ValueError,
                                      'Register named %r', t)
                    ctx.ev('refused', 2)
                    ctx.state('badname', t)


class C24(Check):
    id = 'C24'
    rule = ('random histories of writes, bit and range writes, clears, '
            'replacements, iterations and refused writes over several live '
            'banks, registers, groups and sets of both widths; after each '
            'the printed text is parsed back and compared with a map, twice, '
            'and then with the values read. Distinct = (kind, width, '
            'operation) and texts seen.')
    require = {'bank_texts': 500, 'register_texts': 5000, 'group_texts': 500,
               'set_texts': 300, 'words': 1000000}

    def cases(self, ctx):
        for i in ctx.mine(range(2400 if ctx.thorough else 320)):
            yield {'kind': 'memory', 'rs': i + 100000 * ctx.seed}
            yield {'kind': 'registers', 'rs': i + 100000 * ctx.seed}

    def octals(self, text, digits, what):
        out = []
        for t in text.split():
            expect(t[:2] == '0o' and len(t) >= digits + 2 and t[2:].isdigit()
                   and not set(t[2:]) - set('01234567'),
                   '%s: printed %r, not an octal number of at least %d '
                   'digits', what, t, digits)
            out.append(int(t[2:], 8))
        return out

    def both(self, ctx, obj, what):
        a, b, c = repr(obj), str(obj), '%s' % (obj,)
        expect(a == b == c and a == repr(obj), '%s: prints %r and then %r',
               what, a[:200], b[:200])
        return a

    def bank(self, ctx, bank, m, what):
        got = self.octals(self.both(ctx, bank, what), 16, what)
        want = [m.get(a, 0) for a in range(BANKSIZE)]
        if got != want:
            bad = [a for a in range(BANKSIZE) if got[a:a + 1] != want[a:a + 1]]
            expect(False, '%s: %d numbers printed; address %s prints %s, '
                   'holds %d', what, len(got), bad[:1], got[bad[0]:][:1]
                   if bad else '', want[bad[0]] if bad else 0)
        now = [bank[a] for a in range(BANKSIZE)]
        expect(now == want, '%s: contents changed by printing', what)
        ctx.ev('bank_texts')
        ctx.ev('words', BANKSIZE)

    def memory(self, ctx, case):
        rng = random.Random(case['rs'])
        stores = [(k, mk(k)) for k in
                  [rng.choice(['bank', 'bank', 'module', 'expansion'])
                   for _ in range(rng.choice([1, 2]))]]
        slots = [(i, b) for i, (k, _) in enumerate(stores)
                 for b in range(NBANKS[k])]
        ref = {s: {} for s in slots}

        def at(s):
            return getbank(stores[s[0]][0], stores[s[0]][1], s[1])
        pool = addr_pool(rng)
        tight = rng.random() < 0.3
        if tight:
            pool, few = rng.sample(pool, 2), rng.sample([0, 1, 8, W48], 2)
        for _ in range(rng.choice([1, 3, 6])):
            s = rng.choice(slots)
            for _ in range(rng.choice([1, 5, 40])):
                a = rng.choice(pool)
                v = rng.choice([0, 1, 8, 2**45 - 1, 2**45, W48, W48 - 1,
                                rng.getrandbits(48), rng.getrandbits(48),
                                rng.getrandbits(rng.randrange(1, 48))])
                v = rng.choice(few) if tight else v
                op = rng.choice(['w', 'w', 'w', 'w', 'range', 'clear',
                                 'refused', 'iterate'])
                if op == 'w':
                    at(s)[a] = v
                    ref[s][a] = v
                elif op == 'range':
                    e = min(BANKSIZE, a + rng.choice([1, 2, 300]))
                    at(s)[a:e] = v
                    ref[s].update({x: v for x in range(a, e)})
                elif op == 'clear' and (tight or rng.random() < 0.2):
                    at(s).clear()
                    ref[s] = {}
                elif op == 'refused':
                    expect_raises(call(at(s).__setitem__, a, W48 + 1 + v),
                                  ValueError, 'a value beyond 48 bits')
                elif op == 'iterate':
                    for i, _x in enumerate(at(s)):
                        if i > a:
                            break
                ctx.state('memory', op, v.bit_length())
            self.bank(ctx, at(s), ref[s], 'bank %r' % (s,))
            t = rng.choice(slots)
            self.bank(ctx, at(t), ref[t], 'bank %r' % (t,))
        ctx.sample(case)

    def group(self, ctx, g, m, what):
        got = self.octals(self.both(ctx, g, what), 6, what)
        expect(got == m, '%s: prints %r, holds %r', what, got, m)
        expect([g[n].value for n in range(32)] == m,
               '%s: contents changed by printing', what)
        for n in (0, 13, 28, 31):
            self.one(ctx, g[n], m[n], '%s register %d' % (what, n))
        ctx.ev('group_texts')

    def one(self, ctx, r, v, what):
        got = self.octals(self.both(ctx, r, what), 6, what)
        expect(got == [v], '%s: prints %r, holds %r', what, got, v)
        expect_val(call(lambda: r.value), v, '%s after printing', what)
        ctx.ev('register_texts')
        ctx.state('text', v.bit_length(), len(r))

    def registers(self, ctx, case):
        rng = random.Random(case['rs'])
        sets = [R.Registers(w) for w in rng.choice(
            [[16], [24], [16, 24], [24, 16, 16]])]
        ref = [[[0] * 32 for _ in range(8)] for _ in sets]
        widths = {}
        quiet = rng.random() < 0.3
        held = {} if rng.random() < 0.4 and all(
            handles_survive_clear(x.width) for x in sets) else None
        for _ in range(rng.choice([1, 3, 6])):
            for _ in range(rng.choice([1, 10, 60])):
                s = rng.randrange(len(sets))
                g, n = rng.randrange(8), rng.randrange(32)
                if held and rng.random() < 0.7:
                    s, g, n = rng.choice(sorted(held))
                w = widths.get((s, g, n), sets[s].width)
                v = rng.choice([0, 1, 7, 8, 2**15, 2**w - 1,
                                rng.getrandbits(w), rng.getrandbits(w),
                                rng.getrandbits(rng.randrange(1, w))])
                if held is None:
                    r = sets[s][g][n]
                else:
                    # the register as reached at its first use
                    if (s, g, n) not in held:
                        held[s, g, n] = sets[s][g][n]
                    r = held[s, g, n]
                    if rng.random() < 0.1:
                        self.both(ctx, sets[s][g], 'group %d' % g)
                        self.both(ctx, sets[s], 'set %d' % s)
                op = rng.choice(['w', 'w', 'w', 'bit', 'range', 'replace',
                                 'clear', 'group', 'refused', 'iterate',
                                 'visit'])
                if op == 'visit':
                    for i, x in enumerate(sets[s][g]):
                        if i == n:
                            x.value = v
                    ref[s][g][n] = v
                elif op == 'w':
                    r.value = v
                    ref[s][g][n] = v
                elif op == 'bit':
                    b = rng.randrange(1, w + 1)
                    r[b] = v & 1
                    k = 1 << (w - b)
                    ref[s][g][n] = ref[s][g][n] & ~k | (k if v & 1 else 0)
                elif op == 'range':
                    r[1:w] = v
                    ref[s][g][n] = v
                elif op == 'replace':
                    w = rng.choice([w, w, 16, 24])
                    v = rng.choice([v, rng.getrandbits(w)]) % 2**w
                    sets[s][g][rng.choice([n, NAMES[n]])] = \
                        R.Register(v, NAMES[n], w)
                    ref[s][g][n] = v
                    widths[s, g, n] = w
                    if held:
                        held.pop((s, g, n), None)
                elif op == 'clear':
                    k = rng.random()
                    if k < 0.7:
                        r.clear()
                        ref[s][g][n] = 0
                    elif k < 0.95:
                        sets[s][g].clear()
                        ref[s][g] = [0] * 32
                    else:
                        sets[s].clear()
                        ref[s] = [[0] * 32 for _ in range(8)]
                elif op == 'group' and rng.random() < 0.3:
                    w = rng.choice([w, w, 16, 24])
                    sets[s][g] = R.RegisterGroup(w)
                    ref[s][g] = [0] * 32
                    for i in range(32):
                        widths[s, g, i] = w
                        if held:
                            held.pop((s, g, i), None)
                elif op == 'refused':
                    expect_raises(call(setattr, r, 'value', 2**w + v),
                                  ValueError, 'a value that does not fit')
                elif op == 'iterate':
                    for i, _x in enumerate(sets[s][g]):
                        if i > n:
                            break
                ctx.state('registers', op, w)
                if quiet:
                    continue
                self.one(ctx, sets[s][g][n], ref[s][g][n],
                         'register %d.%d of set %d' % (g, n, s))
            for s in range(len(sets)):
                g = rng.randrange(8)
                self.group(ctx, sets[s][g], ref[s][g],
                           'group %d of set %d' % (g, s))
                what = 'set %d' % s
                lines = [x for x in self.both(ctx, sets[s], what).split('\n')
                         if x.strip()]
                expect(len(lines) == 8, '%s: %d lines printed', what,
                       len(lines))
                for g, x in enumerate(lines):
                    head, _, rest = x.partition(']')
                    expect(head.strip() == '[%d' % g, '%s: line %d begins '
                           'with %r', what, g, head)
                    got = self.octals(rest, 6, what)
                    expect(got == ref[s][g], '%s: group %d prints %r, holds '
                           '%r', what, g, got, ref[s][g])
                ctx.ev('set_texts')
        ctx.sample(case)

    def run(self, ctx, case):
        if case['kind'] == 'memory':
            self.memory(ctx, case)
        else:
            self.registers(ctx, case)
