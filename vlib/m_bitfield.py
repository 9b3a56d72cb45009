"""C01-C05: bit-fields and words, against an independent bit-weight model."""
import operator

from .core import (Check, scribble, bail, call, expect, expect_ok, expect_raises,
                   expect_val, steps,
                   tighten)
from h800.bitfield import BitField
from h800.word import InstructionWord, Word

LSB0, LSB1, MSB0, MSB1 = (BitField.BIT_SCHEME_LSB_0, BitField.BIT_SCHEME_LSB_1,
                          BitField.BIT_SCHEME_MSB_0, BitField.BIT_SCHEME_MSB_1)
SCHEMES = {'LSB0': LSB0, 'LSB1': LSB1, 'MSB0': MSB0, 'MSB1': MSB1}
ORDERS = {'MSB_LEFT': BitField.BIT_ORDER_MSB_LEFT,
          'LSB_LEFT': BitField.BIT_ORDER_LSB_LEFT}
CONFIGS = [(w, s, o) for w in range(1, 65) for s in SCHEMES for o in ORDERS]


class Model:
    """A bit-field as the documentation draws it: indices -> bit weights."""

    def __init__(self, value, width, scheme, order):
        self.v, self.w, self.scheme, self.order = value, width, scheme, order
        self.base = 1 if scheme in ('LSB1', 'MSB1') else 0

    @property
    def valid(self):
        return range(self.base, self.base + self.w)

    def weight(self, i):
        if self.scheme.startswith('LSB'):
            return i - self.base
        return self.w - 1 - (i - self.base)

    def left_to_right(self):
        ws = range(self.w - 1, -1, -1) if self.order == 'MSB_LEFT' \
            else range(self.w)
        inv = {self.weight(i): i for i in self.valid}
        return [inv[x] for x in ws]

    def ok_index(self, i):
        return i in self.valid

    def ok_range(self, s, e):
        if not (self.ok_index(s) and self.ok_index(e)):
            return False
        a, b = self.weight(s), self.weight(e)
        return a >= b if self.order == 'MSB_LEFT' else a <= b

    def span(self, s, e):
        a, b = self.weight(s), self.weight(e)
        lo, hi = min(a, b), max(a, b)
        return lo, hi - lo + 1

    def bit(self, i):
        return (self.v >> self.weight(i)) & 1

    def setbit(self, i, x):
        m = 1 << self.weight(i)
        self.v = (self.v | m) if x else (self.v & ~m)

    def get(self, s, e):
        lo, n = self.span(s, e)
        return (self.v >> lo) & ((1 << n) - 1)

    def put(self, s, e, x):
        lo, n = self.span(s, e)
        m = ((1 << n) - 1) << lo
        self.v = (self.v & ~m) | (x << lo)

    def bad_indices(self):
        lo, hi = self.base, self.base + self.w - 1
        return [lo - 1, lo - 2, lo - self.w, hi + 1, hi + 2, hi + self.w,
                1000, -1000, lo - 64, hi + 64] + [
                    x + y * 2 ** n for n in (8, 16, 31, 32, 64)
                    for x, y in ((lo, 1), (hi, -1))]


def make(value, w, s, o):
    k = (value + w) % 4 if type(value) is int else 3
    if k == 0:
        return BitField(value, w, SCHEMES[s], ORDERS[o])
    if k == 1:
        return BitField(order=ORDERS[o], numbering=SCHEMES[s], width=w,
                        value=value)
    return BitField(value, width=w, numbering=SCHEMES[s], order=ORDERS[o])


def setv(f, v):
    f.value = v


def contents(rng, w, n):
    mx = (1 << w) - 1
    out = [0, mx, mx & 0x5555555555555555, mx & 0xAAAAAAAAAAAAAAAA,
           1 << (w - 1), 1]
    while len(out) < n:
        out.append(rng.getrandbits(w))
    return out


def agree(f, m, what):
    got = f.value
    expect(got == m.v, '%s (width %d, %s, %s): field is %s, should be %s',
           what, m.w, m.scheme, m.order, bin(got), bin(m.v))


class CfgCheck(Check):
    def cases(self, ctx):
        for r in range(6 if ctx.thorough else 1):
            for w, s, o in ctx.mine(CONFIGS):
                yield {'kind': 'cfg', 'width': w, 'scheme': s, 'order': o,
                       'rs': ctx.rng.getrandbits(32)}
        for c in self.more(ctx):
            yield c
        for c in mixed_cases(ctx, 12000 if ctx.thorough else 2400):
            yield c

    def more(self, ctx):
        return ()


class C01(CfgCheck):
    id = 'C01'
    shrink = ('ops',)
    rule = ('every (width 1..64, scheme, order) is swept: all indices, reads '
            'of every bit for several contents, writes of 0/1/False/True to '
            'every index with the whole field compared after each, indices '
            'beyond both ends. Mixed '
            'histories of every operation, legal and refused, on live fields. '
            'Distinct = (configuration, content, index, '
            'bit written) with an observed read or write.')
    require = {'mixed_ops': 10000,
               'reads': 50000, 'writes': 50000, 'refusals': 5000,
               'layouts': 512}

    def run(self, ctx, case):
        if case['kind'] == 'mixed':
            return mixed_run(ctx, case)
        import random
        rng = random.Random(case['rs'])
        w, s, o = case['width'], case['scheme'], case['order']
        m = Model(0, w, s, o)
        name = 'width %d %s %s' % (w, s, o)
        f = make(0, w, s, o)
        ltr = m.left_to_right()
        expect(list(f.indices) == ltr, '%s: indices are %r, documented %r',
               name, f.indices, ltr)
        scribble(make(0, w, s, o).indices)
        f = make(0, w, s, o)
        expect(list(f.indices) == ltr, '%s: indices are %r after the list of '
               'another field was changed, documented %r', name, f.indices,
               ltr)
        lsb = [i for i in m.valid if m.weight(i) == 0][0]
        msb = [i for i in m.valid if m.weight(i) == w - 1][0]
        expect(f.lsb == lsb, '%s: lsb is %r, documented %r', name, f.lsb, lsb)
        expect(f.msb == msb, '%s: msb is %r, documented %r', name, f.msb, msb)
        expect(f.width == w and len(f) == w, '%s: width %r len %r', name,
               f.width, len(f))
        expect(f.numbering == SCHEMES[s] and f.order == ORDERS[o],
               '%s: numbering/order reported as %r/%r', name, f.numbering,
               f.order)
        ctx.ev('layouts')
        for v in contents(rng, w, 10):
            f = make(v, w, s, o)
            m = Model(v, w, s, o)
            for i in m.valid:
                expect_val(call(f.__getitem__, i), m.bit(i),
                           '%s value %s: read of bit %d', name, bin(v), i)
            ctx.ev('reads', w)
            agree(f, m, 'after reading every bit')
            idx = list(m.valid)
            rng.shuffle(idx)
            for i in idx:
                for x in (1, 0, True, False, m.bit(i)):
                    m.setbit(i, x)
                    expect_ok(call(f.__setitem__, i, x),
                              '%s: write %r to bit %d', name, x, i)
                    agree(f, m, 'after writing %r to bit %d of %s'
                          % (x, i, bin(v)))
                    ctx.ev('writes')
                if w <= 16 or i % 7 == 0:
                    ctx.state(w, s, o, v, i)
            got = [f[i] for i in f.indices]
            want = [m.bit(i) for i in ltr]
            expect(got == want, '%s: bits left to right %r, should be %r',
                   name, got, want)
        far = [rng.randrange(-1 << 70, 1 << 70) for _ in range(4)]
        for i in m.bad_indices() + list(range(-70, 140)) + far:
            if m.ok_index(i):
                continue
            expect_raises(call(f.__getitem__, i), ValueError,
                          '%s: read of invalid index %d', name, i)
            for x in (0, 1):
                expect_raises(call(f.__setitem__, i, x), ValueError,
                              '%s: write to invalid index %d', name, i)
                agree(f, m, 'after a refused write to index %d' % i)
            ctx.ev('refusals', 3)
        ctx.sample(case)


class C02(CfgCheck):
    id = 'C02'
    shrink = ('ops',)
    rule = ('every (width 1..64, scheme, order, start, end) is swept: ranges '
            'in the documented direction are read and written with the whole '
            'field compared after each write, ranges in the other direction '
            'or outside the field must be refused on read and write; plus '
            'random histories of overlapping range writes. Mixed '
            'histories of every operation, legal and refused, on live fields. '
            'Distinct = '
            '(configuration, start, end) observed.')
    require = {'mixed_ops': 10000,
               'range_reads': 300000, 'range_writes': 300000,
               'refusals': 300000, 'history_ops': 5000}

    def more(self, ctx):
        for _ in range(ctx.share(4000 if ctx.thorough else 400)):
            rng = ctx.rng
            w, s, o = rng.choice(CONFIGS)
            m = Model(0, w, s, o)
            ops = []
            for _ in range(steps(rng, [5, 30, 100], 1500)):
                a, b = rng.choice(m.valid), rng.choice(m.valid)
                if not m.ok_range(a, b):
                    a, b = b, a
                lo, n = m.span(a, b)
                ops.append([a, b, rng.getrandbits(n)])
            yield {'kind': 'history', 'width': w, 'scheme': s, 'order': o,
                   'start': rng.getrandbits(w), 'ops': tighten(rng, ops)}

    def run(self, ctx, case):
        if case['kind'] == 'mixed':
            return mixed_run(ctx, case)
        import random
        w, s, o = case['width'], case['scheme'], case['order']
        name = 'width %d %s %s' % (w, s, o)
        if case['kind'] == 'history':
            f = make(case['start'], w, s, o)
            m = Model(case['start'], w, s, o)
            for k, (a, b, x) in enumerate(case['ops']):
                m.put(a, b, x)
                expect_ok(call(f.__setitem__, slice(a, b), x),
                          '%s: step %d: [%d:%d] = %d', name, k, a, b, x)
                agree(f, m, 'history step %d: [%d:%d] = %d' % (k, a, b, x))
                # read-back of every earlier range
                for a2, b2, _ in case['ops'][max(0, k - 3):k + 1]:
                    expect_val(call(f.__getitem__, slice(a2, b2)),
                               m.get(a2, b2), '%s: step %d: read [%d:%d]',
                               name, k, a2, b2)
                ctx.ev('history_ops')
            ctx.state('h', w, s, o, m.v)
            return
        rng = random.Random(case['rs'])
        mx = (1 << w) - 1
        f = make(mx, w, s, o)
        for a in m_valid(w, s):
            for b in m_valid(w, s):
                m = Model(rng.getrandbits(w), w, s, o)
                setv(f, m.v)
                if not m.ok_range(a, b):
                    expect_raises(call(f.__getitem__, slice(a, b)),
                                  ValueError, '%s: read of reversed range '
                                  '[%d:%d]', name, a, b)
                    expect_raises(call(f.__setitem__, slice(a, b),
                                       rng.getrandbits(1)),
                                  ValueError, '%s: write to reversed range '
                                  '[%d:%d]', name, a, b)
                    agree(f, m, 'after a refused write to [%d:%d]' % (a, b))
                    ctx.ev('refusals', 2)
                    continue
                lo, n = m.span(a, b)
                expect_val(call(f.__getitem__, slice(a, b)), m.get(a, b),
                           '%s of %s: read [%d:%d]', name, bin(m.v), a, b)
                full = (1 << n) - 1
                for x in (rng.getrandbits(n), full, 0):
                    before = m.v
                    m.put(a, b, x)
                    expect_ok(call(f.__setitem__, slice(a, b), x),
                              '%s: [%d:%d] = %d', name, a, b, x)
                    agree(f, m, 'after [%d:%d] = %s on %s' %
                          (a, b, bin(x), bin(before)))
                expect_val(call(f.__getitem__, slice(a, b)), 0,
                           '%s: read back [%d:%d]', name, a, b)
                ctx.ev('range_reads', 2)
                ctx.ev('range_writes', 3)
                if w <= 24 or (a + b) % 5 == 0:
                    ctx.state(w, s, o, a, b)
        for i in m.bad_indices():
            if m.ok_index(i):
                continue
            near = i in (m.base - 1, m.base + w)
            for j in (list(m.valid) + [i] if near else
                      (m.base, m.base + w - 1, rng.choice(m.valid), i)):
                for a, b in ((i, j), (j, i)):
                    expect_raises(call(f.__getitem__, slice(a, b)),
                                  ValueError, '%s: read of invalid range '
                                  '[%d:%d]', name, a, b)
                    expect_raises(call(f.__setitem__, slice(a, b), 0),
                                  ValueError, '%s: write of invalid range '
                                  '[%d:%d]', name, a, b)
                    agree(f, m, 'after a refused write to [%d:%d]' % (a, b))
                    ctx.ev('refusals', 2)
        ctx.sample(case)


def m_valid(w, s):
    return Model(0, w, s, 'MSB_LEFT').valid


def views(f, m, what):
    agree(f, m, what)
    expect(isinstance(f.value, int), '%s: value is %r', what, f.value)
    expect(0 <= f.value <= (1 << m.w) - 1, '%s: value %r outside %d bits',
           what, f.value, m.w)
    expect(int(f) == m.v and operator.index(f) == m.v,
           '%s: int() %r / index() %r, value %r', what, int(f),
           operator.index(f), m.v)
    text = format(m.v, '0%db' % m.w)
    expect(repr(f) == text and str(f) == text,
           '%s: text %r / %r, should be %r', what, repr(f), str(f), text)
    expect(len(f) == m.w and f.width == m.w and f.maxval == (1 << m.w) - 1,
           '%s: len %r width %r maxval %r for %d bits', what, len(f), f.width,
           f.maxval, m.w)


def mixed_cases(ctx, n):
    """Histories of every operation, legal and refused, on live fields."""
    rng = ctx.rng
    for first in range(ctx.share(n)):
        cfgs = [rng.choice(CONFIGS) for _ in range(
            rng.choice([1, 2, 3]) if first else 1)]
        if rng.random() < 0.4:
            w = cfgs[0][0]
            cfgs = [(w,) + c[1:] for c in cfgs]
        ms = [Model(0, *c) for c in cfgs]
        ops = []
        for _ in range(steps(rng, [5, 20, 60], 1500) if first else 20000):
            t = rng.randrange(len(ms))
            m = ms[t]
            w = m.w
            k = rng.choice(['value', 'range', 'range', 'bit', 'bit', 'setall',
                            'setone', 'get', 'getrange', 'testbit',
                            'testrange', 'views', 'look'])
            i, j = rng.choice(m.valid), rng.choice(m.valid)
            if rng.random() < 0.85:
                if not m.ok_range(i, j):
                    i, j = j, i
            if rng.random() < 0.12:
                i = rng.choice(m.bad_indices())
            if rng.random() < 0.06:
                j = rng.choice(m.bad_indices())
            n = m.span(i, j)[1] if m.ok_range(i, j) else w
            x = rng.choice([rng.getrandbits(n), rng.getrandbits(n), 0,
                            (1 << n) - 1, 1 << n, -1, 1, 1 << w])
            ops.append([t, k, i, j, x])
        yield {'kind': 'mixed', 'cfgs': [list(c) for c in cfgs],
               'start': [rng.getrandbits(m.w) for m in ms],
               'ops': tighten(rng, ops),
               'quiet': rng.random() < 0.3}


def mixed_run(ctx, case):
    import random
    cfgs = [tuple(c) for c in case['cfgs']]
    fs = [make(v, *c) for v, c in zip(case['start'], cfgs)]
    ms = [Model(v, *c) for v, c in zip(case['start'], cfgs)]
    rng = random.Random(len(case['ops']))
    for k, (t, op, i, j, x) in enumerate(case['ops']):
        f, m = fs[t], ms[t]
        what = 'mixed step %d on field %d %r: %s %d %d %d' % (
            k, t, cfgs[t], op, i, j, x)
        okr = m.ok_range(i, j)

        def judge(ok, r, want=None):
            if ok and want is None:
                return expect_ok(r, what)
            if ok:
                return expect_val(r, want, what)
            return expect_raises(r, ValueError, what)
        if op == 'value':
            ok = 0 <= x < (1 << m.w)
            judge(ok, call(setv, f, x))
            if ok:
                m.v = x
        elif op == 'range':
            ok = okr and 0 <= x < (1 << m.span(i, j)[1])
            judge(ok, call(f.__setitem__, slice(i, j), x))
            if ok:
                m.put(i, j, x)
        elif op == 'bit':
            b = x & 1 if x >= 0 else x
            ok = m.ok_index(i) and b in (0, 1)
            judge(ok, call(f.__setitem__, i, b))
            if ok:
                m.setbit(i, b)
        elif op == 'setall':
            judge(True, call(f.set if x & 1 else f.clear))
            m.v = (1 << m.w) - 1 if x & 1 else 0
        elif op == 'setone':
            judge(m.ok_index(i), call(f.set if x & 1 else f.clear, i))
            if m.ok_index(i):
                m.setbit(i, x & 1)
        elif op == 'get':
            judge(m.ok_index(i), call(f.__getitem__, i),
                  m.ok_index(i) and m.bit(i))
        elif op == 'getrange':
            judge(okr, call(f.__getitem__, slice(i, j)),
                  okr and m.get(i, j))
        elif op == 'testbit':
            ok = m.ok_index(i)
            b = ok and m.bit(i)
            judge(ok, call(lambda: bool(f.isBit(i, x & 1))), b == x & 1)
            judge(ok, call(lambda: bool(f.isBitSet(i))), b == 1)
            judge(ok, call(lambda: bool(f.isBitClr(i))), b == 0)
        elif op == 'testrange':
            v = m.get(i, j) if okr else 0
            full = (1 << m.span(i, j)[1]) - 1 if okr else 0
            judge(okr, call(lambda: bool(f.isRange(i, j, x & 1))),
                  v == (full if x & 1 else 0))
            judge(okr, call(lambda: bool(f.isRangeSet(i, j))), v == full)
            judge(okr, call(lambda: bool(f.isRangeClr(i, j))), v == 0)
        elif op == 'look':
            expect(list(f.indices) == m.left_to_right(), '%s: indices %r',
                   what, f.indices)
            inv = {m.weight(n): n for n in m.valid}
            expect(f.lsb == inv[0] and f.msb == inv[m.w - 1],
                   '%s: lsb %r msb %r', what, f.lsb, f.msb)
        ctx.ev('mixed_ops')
        ctx.ev('mixed_' + op)
        if case.get('quiet') and op != 'views':
            # nothing but the operation itself, so that what it leaves behind
            # is not tidied up by looking at the field
            continue
        for n, (g, gm) in enumerate(zip(fs, ms)):
            agree(g, gm, what + ' (field %d)' % n)
        if op == 'views':
            views(f, m, what)
            bits = [f[n] for n in f.indices]
            expect(bits == [m.bit(n) for n in m.left_to_right()],
                   '%s: bits left to right %r', what, bits)
        a, b = rng.choice(m.valid), rng.choice(m.valid)
        if not m.ok_range(a, b):
            a, b = b, a
        expect_val(call(f.__getitem__, a), m.bit(a), '%s; bit %d', what, a)
        expect_val(call(f.__getitem__, slice(a, b)), m.get(a, b),
                   '%s; range [%d:%d]', what, a, b)
    for f, m in zip(fs, ms):
        views(f, m, 'end of a mixed history')
        for i in m.valid:
            expect_val(call(f.__getitem__, i), m.bit(i),
                       'end of a mixed history: bit %d', i)
            expect_val(call(lambda: bool(f.isBitSet(i))), m.bit(i) == 1,
                       'end of a mixed history: isBitSet(%d)', i)
        ctx.state('mixed', m.w, m.scheme, m.order, m.v)


class C03(CfgCheck):
    id = 'C03'
    shrink = ('ops',)
    rule = ('every configuration is swept with boundary values (-1, 2**n-1, '
            '2**n, 2**n+1, beyond) at construction, whole value, every range '
            'and every bit; plus random histories mixing all legal and '
            'illegal writes with every view (value, int, index, text, len, '
            'maxval) compared after each step. Mixed '
            'histories of every operation, legal and refused, on live fields. '
            'Distinct = (configuration, '
            'value) states whose views were compared.')
    require = {'mixed_ops': 10000,
               'views': 20000, 'refused_values': 200000, 'accepted': 50000,
               'bad_constructions': 2000, 'history_ops': 20000}

    def more(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.share(6000 if ctx.thorough else 800)):
            w, s, o = rng.choice(CONFIGS)
            m = Model(0, w, s, o)
            ops = []
            for _ in range(rng.choice([10, 60, 60, 400])):
                k = rng.randrange(8)
                i = rng.choice(m.valid)
                j = rng.choice(m.valid)
                if not m.ok_range(i, j):
                    i, j = j, i
                n = m.span(i, j)[1]
                if k == 0:
                    ops.append(['value', rng.choice(
                        [rng.getrandbits(w), 0, (1 << w) - 1, 1 << w, -1,
                         (1 << w) + rng.getrandbits(8), 1 << 64])])
                elif k in (1, 2):
                    ops.append(['range', i, j, rng.choice(
                        [rng.getrandbits(n), (1 << n) - 1, 1 << n,
                         (1 << n) + 1, -1, 0, rng.getrandbits(n + 1)])])
                elif k in (3, 4):
                    ops.append(['bit', i, rng.choice([0, 1, 0, 1, 2, 3, -1])])
                elif k == 5:
                    ops.append([rng.choice(['set', 'clear'])])
                elif k == 6:
                    ops.append([rng.choice(['set', 'clear']), i])
                else:
                    ops.append(['read', i, j])
            yield {'kind': 'history', 'width': w, 'scheme': s, 'order': o,
                   'start': rng.getrandbits(w), 'ops': tighten(rng, ops)}

    def history(self, ctx, case):
        w, s, o = case['width'], case['scheme'], case['order']
        f = make(case['start'], w, s, o)
        m = Model(case['start'], w, s, o)
        for k, op in enumerate(case['ops']):
            what = 'width %d %s %s from %d: step %d %r' % (
                w, s, o, case['start'], k, op)
            ctx.ev('history_ops')
            if op[0] == 'value':
                r = call(setv, f, op[1])
                if 0 <= op[1] < (1 << w):
                    expect_ok(r, what)
                    m.v = op[1]
                    ctx.ev('accepted')
                else:
                    expect_raises(r, ValueError, what)
                    ctx.ev('refused_values')
            elif op[0] == 'range':
                r = call(f.__setitem__, slice(op[1], op[2]), op[3])
                if 0 <= op[3] < (1 << m.span(op[1], op[2])[1]):
                    expect_ok(r, what)
                    m.put(op[1], op[2], op[3])
                    ctx.ev('accepted')
                else:
                    expect_raises(r, ValueError, what)
                    ctx.ev('refused_values')
            elif op[0] == 'bit':
                r = call(f.__setitem__, op[1], op[2])
                if op[2] in (0, 1):
                    expect_ok(r, what)
                    m.setbit(op[1], op[2])
                    ctx.ev('accepted')
                else:
                    expect_raises(r, ValueError, what)
                    ctx.ev('refused_values')
            elif op[0] == 'read':
                expect_val(call(f.__getitem__, slice(op[1], op[2])),
                           m.get(op[1], op[2]), what)
            else:
                expect_ok(call(getattr(f, op[0]), *op[1:]), what)
                if len(op) > 1:
                    m.setbit(op[1], op[0] == 'set')
                else:
                    m.v = (1 << w) - 1 if op[0] == 'set' else 0
                ctx.ev('accepted')
            views(f, m, what)
            ctx.ev('views')
        ctx.state(w, s, o, m.v)

    def run(self, ctx, case):
        if case['kind'] == 'mixed':
            return mixed_run(ctx, case)
        import random
        if case['kind'] == 'history':
            return self.history(ctx, case)
        rng = random.Random(case['rs'])
        w, s, o = case['width'], case['scheme'], case['order']
        name = 'width %d %s %s' % (w, s, o)
        mx = (1 << w) - 1
        good = contents(rng, w, 12)
        bad = [-1, -2, mx + 1, mx + 2, 2 * mx + 1, 1 << (w + 1), -mx - 1,
               1 << 64, 1 << 70, mx + 1 + rng.getrandbits(w), 1 << 128,
               -1 << 64, -1 << 48, mx - (1 << 64), 3 << 64]
        for v in bad:
            expect_raises(call(make, v, w, s, o), ValueError,
                          '%s: construction with %d', name, v)
            ctx.ev('bad_constructions')
        for v in good:
            f = expect_ok(call(make, v, w, s, o), '%s: construction with %d',
                          name, v)
            views(f, Model(v, w, s, o), '%s constructed with %d' % (name, v))
            ctx.ev('views')
            ctx.state(w, s, o, v)
        m = Model(rng.getrandbits(w), w, s, o)
        f = make(m.v, w, s, o)
        for v in bad:
            expect_raises(call(setv, f, v), ValueError,
                          '%s: value = %d', name, v)
            agree(f, m, 'after refused value = %d' % v)
            ctx.ev('refused_values')
        for v in good:
            expect_ok(call(setv, f, v), '%s: value = %d', name, v)
            m.v = v
            views(f, m, '%s: value = %d' % (name, v))
            ctx.ev('accepted')
        m.v = rng.getrandbits(w)
        setv(f, m.v)
        for i in m.valid:
            for x in (2, 3, -1, -2, 1 << w, 1 << 64, (1 << 64) + 1,
                      -1 << 64, 1 - (1 << w)):
                expect_raises(call(f.__setitem__, i, x), ValueError,
                              '%s: bit %d = %d', name, i, x)
                agree(f, m, 'after refused bit %d = %d' % (i, x))
                ctx.ev('refused_values')
            for j in m.valid:
                if not m.ok_range(i, j):
                    continue
                n = m.span(i, j)[1]
                for x in (1 << n, (1 << n) + 1, -1, 1 << 64,
                          (1 << n) + rng.getrandbits(n), 1 << 128, -1 << n,
                          -1 << 64, 1 - (1 << w), (1 << w) + 1):
                    expect_raises(call(f.__setitem__, slice(i, j), x),
                                  ValueError, '%s: [%d:%d] = %d', name, i, j,
                                  x)
                    ctx.ev('refused_values')
                agree(f, m, 'after refused writes to [%d:%d]' % (i, j))
                x = (1 << n) - 1
                before = m.v
                expect_ok(call(f.__setitem__, slice(i, j), x),
                          '%s: [%d:%d] = %d', name, i, j, x)
                m.put(i, j, x)
                agree(f, m, 'after [%d:%d] = %d on %d' % (i, j, x, before))
                m.v = before
                setv(f, before)
                ctx.ev('accepted')
        for kw in ({'width': 65}, {'width': 66}, {'width': 100},
                   {'width': 1000}, {'width': w, 'numbering': 4},
                   {'width': w, 'numbering': -1}, {'width': w, 'order': 2},
                   {'width': w, 'order': -1},
                   {'width': w, 'numbering': 99, 'order': ORDERS[o]}):
            expect_raises(call(BitField, 0, **kw), ValueError,
                          'construction with %r', kw)
            ctx.ev('bad_constructions')
        d = BitField()
        expect(d.value == 0 and d.width == 8 and len(d) == 8,
               'default field has value %r width %r', d.value, d.width)
        ctx.sample(case)


class C04(CfgCheck):
    id = 'C04'
    shrink = ('ops',)
    rule = ('every configuration: set/clear of every index and of all bits '
            'with the whole field compared; every bit and range predicate on '
            'contents built around the range (all ones, all zeros, one bit '
            'off at either end or inside, surroundings 0/1/random); refusals '
            'of invalid indices, ranges and test values. Mixed '
            'histories of every operation, legal and refused, on live fields. '
            'Distinct = '
            '(configuration, range, content class).')
    require = {'mixed_ops': 10000,
               'setclear': 30000, 'bit_tests': 50000,
               'set_bits_tested': 10000, 'range_tests': 200000,
               'refusals': 10000}

    def run(self, ctx, case):
        if case['kind'] == 'mixed':
            return mixed_run(ctx, case)
        import random
        rng = random.Random(case['rs'])
        w, s, o = case['width'], case['scheme'], case['order']
        name = 'width %d %s %s' % (w, s, o)
        mx = (1 << w) - 1
        f = make(0, w, s, o)
        m = Model(0, w, s, o)
        for v in [0, mx] + [rng.getrandbits(w) for _ in range(3)]:
            for i in m.valid:
                for opname, x in (('set', 1), ('clear', 0)):
                    setv(f, v)
                    m.v = v
                    expect_ok(call(getattr(f, opname), i), '%s: %s(%d)', name,
                              opname, i)
                    m.setbit(i, x)
                    agree(f, m, '%s(%d) on %s' % (opname, i, bin(v)))
                    ctx.ev('setclear')
                    self.bits(ctx, f, m, i, name)
                setv(f, v)
                m.v = v
                self.bits(ctx, f, m, i, name)
                self.bits(ctx, f, m, rng.choice(m.valid), name)
            for opname, x in (('set', mx), ('clear', 0)):
                setv(f, v)
                expect_ok(call(getattr(f, opname)), '%s: %s()', name, opname)
                m.v = x
                agree(f, m, '%s() on %s' % (opname, bin(v)))
                setv(f, v)
                expect_ok(call(getattr(f, opname), None), '%s: %s(None)',
                          name, opname)
                agree(f, m, '%s(None) on %s' % (opname, bin(v)))
                ctx.ev('setclear', 2)
        for i in m.valid:
            js = m.valid if (w <= 14 or ctx.thorough) else \
                sorted({m.base, m.base + w - 1, i} |
                       {rng.choice(m.valid) for _ in range(6)})
            for j in js:
                if m.ok_range(i, j):
                    self.ranges(ctx, f, m, i, j, rng, name)
                else:
                    m.v = rng.getrandbits(w)
                    setv(f, m.v)
                    self.badrange(ctx, f, m, i, j, name)
        for i in m.bad_indices():
            if m.ok_index(i):
                continue
            for what, r in (
                    ('set', call(f.set, i)), ('clear', call(f.clear, i)),
                    ('isBit', call(f.isBit, i, 0)),
                    ('isBit', call(f.isBit, i, 1)),
                    ('isBitSet', call(f.isBitSet, i)),
                    ('isBitClr', call(f.isBitClr, i))):
                expect_raises(r, ValueError, '%s: %s(%d)', name, what, i)
                ctx.ev('refusals')
            agree(f, m, 'after refused operations on index %d' % i)
            self.badrange(ctx, f, m, i, m.base, name)
            self.badrange(ctx, f, m, m.base + w - 1, i, name)
        ctx.sample(case)

    def bits(self, ctx, f, m, i, name):
        b = m.bit(i)
        for x in (0, 1):
            r = expect_ok(call(f.isBit, i, x), '%s: isBit(%d, %d)', name, i, x)
            expect(bool(r) == (b == x), '%s of %s: isBit(%d, %d) is %r', name,
                   bin(m.v), i, x, r)
        for x in (2, -1, 1 << m.w, m.v + 2):
            r = expect_ok(call(f.isBit, i, x), '%s: isBit(%d, %d)', name, i,
                          x)
            expect(not r, '%s of %s: isBit(%d, %d) is %r', name, bin(m.v), i,
                   x, r)
        r = expect_ok(call(f.isBitSet, i), '%s: isBitSet(%d)', name, i)
        expect(bool(r) == (b == 1), '%s of %s: isBitSet(%d) is %r', name,
               bin(m.v), i, r)
        r = expect_ok(call(f.isBitClr, i), '%s: isBitClr(%d)', name, i)
        expect(bool(r) == (b == 0), '%s of %s: isBitClr(%d) is %r', name,
               bin(m.v), i, r)
        agree(f, m, 'after testing bit %d' % i)
        ctx.ev('bit_tests', 4)
        ctx.ev('set_bits_tested', b)

    def ranges(self, ctx, f, m, i, j, rng, name):
        w = m.w
        lo, n = m.span(i, j)
        full = (1 << n) - 1
        inner = {0, full, 1, full ^ 1, 1 << (n - 1), full ^ (1 << (n - 1)),
                 rng.getrandbits(n), full ^ (1 << rng.randrange(n)),
                 1 << rng.randrange(n)}
        for x in sorted(inner):
            for k, around in enumerate((0, (1 << w) - 1, rng.getrandbits(w))):
                m.v = around
                m.put(i, j, x)
                setv(f, m.v)
                for want, got, what in (
                        (x == full, call(f.isRange, i, j, 1), 'isRange 1'),
                        (x == 0, call(f.isRange, i, j, 0), 'isRange 0'),
                        (x == full, call(f.isRangeSet, i, j), 'isRangeSet'),
                        (x == 0, call(f.isRangeClr, i, j), 'isRangeClr')):
                    r = expect_ok(got, '%s: %s [%d:%d]', name, what, i, j)
                    expect(bool(r) == want,
                           '%s of %s: %s on [%d:%d] is %r, should be %r',
                           name, bin(m.v), what, i, j, r, want)
                agree(f, m, 'after testing [%d:%d]' % (i, j))
                ctx.ev('range_tests', 4)
        ctx.state(w, m.scheme, m.order, i, j)
        for x in (2, -1, 3, full + 2):
            if x in (0, 1):
                continue
            expect_raises(call(f.isRange, i, j, x), ValueError,
                          '%s: isRange(%d, %d, %d)', name, i, j, x)
            ctx.ev('refusals')

    def badrange(self, ctx, f, m, a, b, name):
        for what, r in (('isRange', call(f.isRange, a, b, 0)),
                        ('isRange', call(f.isRange, a, b, 1)),
                        ('isRangeSet', call(f.isRangeSet, a, b)),
                        ('isRangeClr', call(f.isRangeClr, a, b))):
            expect_raises(r, ValueError, '%s: %s on [%d:%d]', name, what, a,
                          b)
            ctx.ev('refusals')
        agree(f, m, 'after refused tests on [%d:%d]' % (a, b))


FIELDS = {'command': (1, 12), 'a': (13, 24), 'b': (25, 36), 'c': (37, 48)}
FNAMES = list(FIELDS)


class C05(Check):
    id = 'C05'
    shrink = ('ops',)
    rule = ('random histories of group, bit, range and whole-word writes '
            '(legal and illegal) on several live words; after every step the '
            'word, all four groups and their concatenation are compared with '
            'a 48-bit model; plus a sweep of boundary values of every group '
            'against every neighbour. Distinct = word states observed.')
    require = {'steps': 20000, 'refused': 3000, 'constructions': 2000,
               'group_sweeps': 400}

    def cases(self, ctx):
        rng = ctx.rng
        for i in ctx.mine(range(640 if not ctx.thorough else 6400)):
            yield {'kind': 'sweep', 'rs': i}
        for first in range(ctx.share(60000 if ctx.thorough else 9000)):
            ops = []
            nw = rng.choice([1, 2, 3]) if first else 1
            for _ in range(steps(rng, [5, 20, 60], 1500) if first else
                           40000):
                t = rng.randrange(nw)
                k = rng.randrange(6)
                if k <= 1:
                    ops.append([t, 'group', rng.choice(FNAMES), rng.choice(
                        [rng.getrandbits(12), 0, 4095, 4096, -1, 4097, -4095,
                         rng.choice([2**48, 2**36, 1 << 64, -2**48, 2**48 + 7]),
                         rng.getrandbits(13), 1, 2048])])
                elif k == 2:
                    ops.append([t, 'value', rng.choice(
                        [rng.getrandbits(48), 0, 2**48 - 1, 2**48, -1,
                         2**48 + 1, 2**60, -2**48, 2**96, 5 - 2**48,
                         -2**64])])
                elif k == 3:
                    ops.append([t, 'bit', rng.randint(0, 49),
                                rng.choice([0, 1, 1, 0, 2])])
                elif k == 4:
                    a, b = sorted([rng.randint(1, 48), rng.randint(1, 48)])
                    ops.append([t, 'range', a, b, rng.choice(
                        [rng.getrandbits(b - a + 1), (1 << (b - a + 1)) - 1,
                         1 << (b - a + 1), 0, -1,
                         rng.choice([-1 << (b - a + 1), 1 << 64, -1 << 48,
                                     (1 << 48) + 1])])])
                else:
                    ops.append([t, 'read'])
            yield {'kind': 'history', 'nw': nw, 'ops': tighten(rng, ops),
                   'init': [[rng.choice([0, 4095, rng.getrandbits(12)])
                             for _ in range(4)] for _ in range(nw)],
                   'plain': rng.random() < 0.3,
                   'quiet': rng.random() < 0.3}

    @staticmethod
    def observe(word, v, what, plain=False):
        expect(word.value == v, '%s: word is %016o, should be %016o', what,
               word.value, v)
        expect(int(word.data) == v and len(word.data) == 48,
               '%s: data is %r', what, word.data)
        if plain:
            return
        got = [getattr(word, n) for n in FNAMES]
        want = [(v >> sh) & 4095 for sh in (36, 24, 12, 0)]
        expect(got == want, '%s: groups (command,a,b,c) %r, should be %r',
               what, [oct(g) for g in got], [oct(g) for g in want])

    def run(self, ctx, case):
        import random
        if case['kind'] == 'sweep':
            rng = random.Random('c05/%d' % case['rs'])
            for n in FNAMES:
                for x in (0, 1, 2, 2047, 2048, 4094, 4095,
                          rng.getrandbits(12)):
                    for bg in (0, 2**48 - 1, rng.getrandbits(48)):
                        iw = InstructionWord()
                        iw.value = bg
                        setattr(iw, n, x)
                        sh = 48 - FIELDS[n][1]
                        v = (bg & ~(4095 << sh)) | (x << sh)
                        self.observe(iw, v, '%s = %d on %016o' % (n, x, bg))
                        for y in (-1, 4096, 4097, 8191, 2**24, -4096):
                            expect_raises(call(setattr, iw, n, y), ValueError,
                                          '%s = %d', n, y)
                            self.observe(iw, v, 'after refused %s = %d' %
                                         (n, y))
                            ctx.ev('refused')
                        ctx.state(v)
                ctx.ev('group_sweeps')
            for _ in range(20):
                v = rng.choice([rng.getrandbits(48), 0, 1, 2**48 - 1, 2**47,
                                1 << rng.randrange(48)])
                wd = Word(v)
                self.observe(wd, v, 'Word(%d)' % v, True)
                for i in range(1, 49):
                    expect_val(call(wd.data.__getitem__, i),
                               (v >> (48 - i)) & 1, 'bit %d of word %016o',
                               i, v)
                fs = [(v >> sh) & 4095 for sh in (36, 24, 12, 0)]
                self.observe(InstructionWord(*fs), v,
                             'InstructionWord%r' % (tuple(fs),))
                self.observe(InstructionWord(**dict(zip(FNAMES, fs))), v,
                             'InstructionWord(keywords %r)' % (fs,))
                ctx.ev('constructions', 3)
                ctx.state(v)
            self.observe(Word(), 0, 'Word()', True)
            self.observe(InstructionWord(), 0, 'InstructionWord()')
            for v in (-1, 2**48, 2**48 + 1, 2**49, -2**47, 2**64):
                expect_raises(call(Word, v), ValueError, 'Word(%d)', v)
                ctx.ev('refused')
            for k in range(4):
                for y in (-1, 4096, 5000, 2**13):
                    fs = [rng.getrandbits(12) for _ in range(4)]
                    fs[k] = y
                    expect_raises(call(InstructionWord, *fs), ValueError,
                                  'InstructionWord%r', tuple(fs))
                    ctx.ev('refused')
            ctx.sample(case)
            return
        words, vals = [], []
        plain = case['plain']
        for fs in case['init']:
            v = 0
            for x in fs:
                v = (v << 12) | x
            words.append(Word(v) if plain else InstructionWord(*fs))
            vals.append(v)
            ctx.ev('constructions')
        for k, op in enumerate(case['ops']):
            t, kind = op[0], op[1]
            w, v = words[t], vals[t]
            what = 'step %d: word %d %r on %016o' % (k, t, op[1:], v)
            if kind == 'group':
                if plain:
                    continue
                r = call(setattr, w, op[2], op[3])
                good = 0 <= op[3] <= 4095
                sh = 48 - FIELDS[op[2]][1]
                new = (v & ~(4095 << sh)) | (op[3] << sh)
            elif kind == 'value':
                r = call(setattr, w, 'value', op[2])
                good = 0 <= op[2] < 2**48
                new = op[2]
            elif kind == 'bit':
                r = call(w.data.__setitem__, op[2], op[3])
                good = 1 <= op[2] <= 48 and op[3] in (0, 1)
                if good:
                    bm = 1 << (48 - op[2])
                    new = (v | bm) if op[3] else (v & ~bm)
            elif kind == 'range':
                r = call(w.data.__setitem__, slice(op[2], op[3]), op[4])
                n = op[3] - op[2] + 1
                good = 0 <= op[4] < (1 << n)
                sh = 48 - op[3]
                new = (v & ~(((1 << n) - 1) << sh)) | (op[4] << sh)
            else:
                r, good, new = None, True, v
            if r is not None:
                if good:
                    expect_ok(r, what)
                    vals[t] = new
                else:
                    expect_raises(r, ValueError, what)
                    ctx.ev('refused')
            ctx.ev('steps')
            ctx.state(vals[t])
            if case.get('quiet') and kind != 'read' and \
                    k < len(case['ops']) - 1:
                continue
            for q in range(len(words)):
                self.observe(words[q], vals[q], what + ': word %d' % q, plain)
        ctx.sample({'ops': case['ops'][:6]})
