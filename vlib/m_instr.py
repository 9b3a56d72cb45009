"""C09-C11, C22: instruction encodings, refusals and tables."""
import collections
import contextlib
import random
import re

from . import gold
from .core import (Check, TextSink, call, expect, expect_ok, expect_raises, expect_val,
                   short)
from h800 import instruction as IN
from h800 import instructions as I

ENC = {m: (c, f) for m, c, f in gold.MACHINE}
MASKABLE = [m for m in ENC if 'masked' in ENC[m][1]]
PERIPH = [m for m in ENC if 'peripheral' in ENC[m][1]]
PRINT = [m for m in ENC if 'print' in ENC[m][1]]
PLAIN = [m for m in ENC if list(ENC[m][1]) == ['unmasked'] and m != 'PR']
ABC = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]


def legal(m):
    """Every legal operand combination: (keywords, expected code)."""
    c, forms = ENC[m]
    out = []
    if m == 'PR':
        return [({}, 0)]
    if m == 'S':
        return [({'sequence': s}, gold.encode(
            forms['indexed' if s else 'direct'])) for s in (0, 1)]
    if 'masked' in forms:
        for s in (0, 1):
            for k in range(32):
                out.append(({'sequence': s, 'mask': k},
                            gold.encode(forms['masked'], s=s, m=k)))
    if 'unmasked' in forms or 'print' in forms:
        pat = forms.get('unmasked') or forms['print']
        for s in (0, 1):
            for a, b, c in ABC:
                out.append(({'sequence': s, 'a': a, 'b': b, 'c': c},
                            gold.encode(pat, s=s, a=a, b=b, c=c)))
    if 'peripheral' in forms:
        for p in range(64):
            out.append(({'paddr': p}, gold.encode(forms['peripheral'], p=p)))
    return out


ORDER = ['sequence', 'mask', 'a', 'b', 'c', 'paddr']


def construct(m, kw, positional=False):
    cls = getattr(I, ENC[m][0])
    if positional and m in MASKABLE:
        return cls(*[kw.get(k) for k in ORDER[:5]])
    if positional:
        return cls(*[kw[k] for k in ORDER if k in kw])
    return cls(**kw)


def boolish(kw, rng):
    return {k: (bool(v) if k in ('sequence', 'a', 'b', 'c') and
                rng.random() < 0.6 else v) for k, v in kw.items()}


class C09(Check):
    id = 'C09'
    rule = ('every legal operand combination of all 64 mnemonics is '
            'constructed (keywords, positional, boolean spellings, generic '
            'form classes), in enumeration order and in shuffled '
            'interleavings, and compared with the PRM bit patterns; the four '
            'helper functions are compared on their whole domain. Distinct = '
            '(mnemonic, operands) whose code was observed.')
    require = {'codes': 5000, 'helper_codes': 1500, 'shuffled': 4000}

    def cases(self, ctx):
        for m in ctx.mine(sorted(ENC)):
            yield {'kind': 'all', 'm': m}
        for _ in range(ctx.share(160 if ctx.thorough else 24)):
            yield {'kind': 'shuffle', 'rs': ctx.rng.getrandbits(32)}

    def one(self, ctx, m, kw, want, positional=False):
        what = '%s%s%r' % (m, ' positional ' if positional else ' ', kw)
        o = expect_ok(call(construct, m, kw, positional), what)
        got = o.value
        expect(got == want, '%s: code %04o, PRM gives %04o', what, got, want)
        expect(int(o.data) == want and len(o.data) == 12,
               '%s: 12-bit data %r, PRM gives %04o', what, o.data, want)
        ctx.state(m, sorted(kw.items()))

    def run(self, ctx, case):
        if case['kind'] == 'shuffle':
            rng = random.Random(case['rs'])
            todo = []
            for m in ENC:
                pool = legal(m)
                for _ in range(8):
                    kw, code = rng.choice(pool)
                    todo.append((m, boolish(kw, rng), code, rng.random() < .5))
            rng.shuffle(todo)
            live = []
            for m, kw, code, pos in todo:
                self.one(ctx, m, kw, code, pos)
                live.append((m, kw, code, construct(m, kw)))
                ctx.ev('shuffled')
            for m, kw, code, o in live:
                expect(o.value == code, '%s %r: code later reads %04o, was '
                       '%04o', m, kw, o.value, code)
            return
        m = case['m']
        rng = random.Random(m)
        cls, forms = ENC[m]
        for kw, code in legal(m):
            self.one(ctx, m, kw, code)
            self.one(ctx, m, kw, code, True)
            self.one(ctx, m, boolish(kw, rng), code)
            ctx.ev('codes', 3)
            # the generic form with the table entry gives the same code
            o = expect_ok(call(IN.Instruction, opcode=I.OPCODES[m], **kw),
                          '%s generic %r', m, kw)
            if m != 'PR':
                expect(o.value == code, '%s generic %r: code %04o, PRM gives '
                       '%04o', m, kw, o.value, code)
            # without some of the flags, their bits are 0
            for n in [n for n in ('sequence', 'a', 'b', 'c') if n in kw]:
                part = {k: v for k, v in kw.items() if k != n}
                if m in ('PR', 'S'):
                    continue
                want = [c for k, c in legal(m) if k == dict(part, **{n: 0})]
                o = expect_ok(call(IN.Instruction, opcode=I.OPCODES[m],
                                   **part), '%s generic %r', m, part)
                expect([o.value] == want, '%s generic %r: code %04o, PRM '
                       'gives %r', m, part, o.value, want)
                ctx.ev('codes')
        if m in MASKABLE:
            for s in (0, 1):
                # nothing active, nothing masked
                self.one(ctx, m, {'sequence': s},
                         gold.encode(forms['unmasked'], s=s))
                # operands left out leave their bits 0
                for x, y, z in ABC:
                    kw = {n: 1 for n, v in zip('abc', (x, y, z)) if v}
                    code = gold.encode(forms['unmasked'], s=s, a=x, b=y, c=z)
                    self.one(ctx, m, dict(kw, sequence=s), code)
                    kw = {n: v for n, v in zip('abc', (x, y, z))
                          if rng.random() < 0.5}
                    code = gold.encode(forms['unmasked'], s=s, **kw)
                    self.one(ctx, m, dict(kw, sequence=s), code)
                    ctx.ev('codes', 2)
                for k in range(32):
                    code = gold.encode(forms['masked'], s=s, m=k)
                    expect_val(call(I.make_masked_opcode, m, s, k), code,
                               'make_masked_opcode(%s, %d, %d)', m, s, k)
                    expect_val(call(I.make_masked_opcode, m, bool(s), k),
                               code, 'make_masked_opcode(%s, %s, %d)', m,
                               bool(s), k)
                    o = IN.GeneralMasked(I.OPCODES[m], s, k)
                    expect(o.value == code, 'GeneralMasked(%s, %d, %d): '
                           '%04o, PRM gives %04o', m, s, k, o.value, code)
                    ctx.ev('helper_codes')
        if 'unmasked' in forms and m != 'PR':
            for s in (0, 1):
                for a, b, c in ABC:
                    code = gold.encode(forms['unmasked'], s=s, a=a, b=b, c=c)
                    expect_val(call(I.make_unmasked_opcode, m, s, a, b, c),
                               code, 'make_unmasked_opcode(%s,%d,%d,%d,%d)',
                               m, s, a, b, c)
                    bs = [rng.choice([bool(x), x]) for x in (s, a, b, c)]
                    expect_val(call(I.make_unmasked_opcode, m, *bs),
                               code, 'make_unmasked_opcode(%s, %r)', m, bs)
                    for k in (IN.GeneralUnmasked, IN.Scientific):
                        o = k(I.OPCODES[m], s, a, b, c)
                        expect(o.value == code, '%s(%s, %r): %04o, PRM gives '
                               '%04o', k.__name__, m, (s, a, b, c), o.value,
                               code)
                    ctx.ev('helper_codes')
        if m == 'PR':
            for s, a, b, c in [(0, 0, 0, 0)]:
                expect_val(call(I.make_unmasked_opcode, m, s, a, b, c), 0,
                           'make_unmasked_opcode(PR)')
        if m in PRINT:
            for s in (0, 1):
                for a, b, c in ABC:
                    code = gold.encode(forms['print'], s=s, a=a, b=b, c=c)
                    expect_val(call(I.make_print_opcode, m, s, a, b, c),
                               code, 'make_print_opcode(%s,%d,%d,%d,%d)', m,
                               s, a, b, c)
                    bs = [rng.choice([bool(x), x]) for x in (s, a, b, c)]
                    expect_val(call(I.make_print_opcode, m, *bs), code,
                               'make_print_opcode(%s, %r)', m, bs)
                    ctx.ev('helper_codes')
        if m in PERIPH:
            for p in range(64):
                code = gold.encode(forms['peripheral'], p=p)
                expect_val(call(I.make_peripheral_opcode, m, p), code,
                           'make_peripheral_opcode(%s, %d)', m, p)
                o = IN.Peripheral(I.OPCODES[m], p)
                expect(o.value == code, 'Peripheral(%s, %d): %04o, PRM gives '
                       '%04o', m, p, o.value, code)
                ctx.ev('helper_codes')
        ctx.sample({'m': m, 'combinations': len(legal(m))})


BADBOOL = [2, -1, 3, -2, 8, 100]
BADMASK = [-1, 32, 33, 63, 64, -32, 1000]
BADPADDR = [-1, 64, 65, 127, 128, -64, 1000]
# legal operands plus or minus a power of two
FAR = [v + d * 2 ** n for n in (8, 12, 16, 31, 32, 48, 64) for d in (1, -1)
       for v in (0, 1)]


class C10(Check):
    id = 'C10'
    rule = ('for every mnemonic, operand tuples with one or several illegal '
            'members (each boundary and beyond), masks on unmaskable '
            'instructions, masks combined with A/B/C, peripheral addresses '
            'combined with other operands: all must raise ValueError; legal '
            'neighbours must be accepted; constants of all 16 classes over '
            'boundary and random 48-bit values. Distinct = (mnemonic, '
            'illegal operands) or (class, value).')
    require = {'refused': 20000, 'accepted': 2000, 'constants': 3000,
               'constants_refused': 500}

    def cases(self, ctx):
        for m in ctx.mine(sorted(ENC)):
            yield {'kind': 'illegal', 'm': m}
        for c in ctx.mine(gold.CONSTANTS):
            yield {'kind': 'const', 'c': c, 'rs': ctx.rng.getrandbits(32)}
        for _ in range(ctx.share(1200 if ctx.thorough else 120)):
            yield {'kind': 'random', 'rs': ctx.rng.getrandbits(32)}

    def refuse(self, ctx, f, what):
        expect_raises(call(f), ValueError, what)
        ctx.ev('refused')
        ctx.state(what)

    def run(self, ctx, case):
        if case['kind'] == 'const':
            return self.const(ctx, case)
        if case['kind'] == 'random':
            rng = random.Random(case['rs'])
            for _ in range(200):
                m = rng.choice(sorted(ENC))
                if m == 'PR':
                    continue
                kw, code = rng.choice(legal(m))
                kw = dict(kw)
                if rng.random() < 0.15:
                    o = expect_ok(call(construct, m, kw), '%s %r', m, kw)
                    expect(o.value == code, '%s %r: code %04o', m, kw,
                           o.value)
                    ctx.ev('accepted')
                    continue
                for k in rng.sample(sorted(kw), rng.randint(1, len(kw))):
                    top = {'mask': 32, 'paddr': 64}.get(k, 2)
                    kw[k] = rng.choice(
                        {'mask': BADMASK, 'paddr': BADPADDR}.get(k, BADBOOL) +
                        [rng.randrange(top, 300), -rng.randrange(1, 300),
                         rng.randrange(top, 1 << 40), rng.choice(FAR),
                         -rng.randrange(1, 1 << 40), top << rng.randrange(9)])
                self.refuse(ctx, lambda: construct(m, kw), '%s %r' % (m, kw))
            return
        m = case['m']
        cls, forms = ENC[m]
        for kw, code in legal(m):
            o = expect_ok(call(construct, m, kw), '%s %r', m, kw)
            ctx.ev('accepted')
            for k in kw:
                bad = {'mask': BADMASK, 'paddr': BADPADDR}.get(k, BADBOOL)
                for x in bad:
                    kb = dict(kw)
                    kb[k] = x
                    self.refuse(ctx, lambda: construct(m, kb),
                                '%s %r' % (m, kb))
        gen = IN.Instruction
        op = I.OPCODES[m]
        if m in MASKABLE:
            for k in range(32):
                for s in (0, 1):
                    for extra in ([{n: v} for n in 'abc' for v in (0, 1)] +
                                  [{'a': a, 'b': b, 'c': c}
                                   for a, b, c in ABC]):
                        kw = dict(extra, sequence=s, mask=k)
                        self.refuse(ctx, lambda: construct(m, kw),
                                    '%s %r' % (m, kw))
        else:
            for k in list(range(32)) + BADMASK:
                for s in (0, 1):
                    self.refuse(ctx, lambda: gen(opcode=op, sequence=s,
                                                 mask=k),
                                '%s with mask %d' % (m, k))
                    self.refuse(ctx, lambda: IN.GeneralMasked(op, s, k),
                                '%s as masked %d' % (m, k))
        for top, k in ((32, 'mask'), (64, 'paddr'), (2, 'sequence'),
                       (2, 'a'), (2, 'b'), (2, 'c')):
            kws = [kw for kw, _ in legal(m) if k in kw]
            for kw in kws[:1] + kws[-1:]:
                for x in list(range(-140, 0)) + list(range(top, 270)) + FAR:
                    kb = dict(kw)
                    kb[k] = x
                    self.refuse(ctx, lambda: construct(m, kb),
                                '%s %r' % (m, kb))
        if m in ENC:
            for p in (0, 1, 31, 63):
                for extra in ({'sequence': 0}, {'sequence': 1}, {'mask': 0},
                              {'mask': 5}, {'a': 0}, {'a': 1}, {'b': 0},
                              {'b': 1}, {'c': 0}, {'c': 1},
                              {'sequence': 1, 'a': 1, 'b': 1, 'c': 1}):
                    self.refuse(ctx, lambda: gen(opcode=op, paddr=p, **extra),
                                '%s paddr %d with %r' % (m, p, extra))
        ctx.sample(case)

    def const(self, ctx, case):
        rng = random.Random(case['rs'])
        cls = getattr(I, case['c'])
        good = [0, 1, 2**48 - 1, 2**47, 2**47 - 1, 2**24, 0o7777]
        good += [1 << k for k in range(48)]
        good += [rng.getrandbits(48) for _ in range(200)]
        live = []
        for v in good:
            o = expect_ok(call(cls, v), '%s(%d)', case['c'], v)
            expect(o.value == v, '%s(%d) holds %r', case['c'], v, o.value)
            expect(int(o.data) == v and len(o.data) == 48 and
                   o.data[1] == v >> 47 and o.data[48] == v & 1,
                   '%s(%d): bits %r', case['c'], v, o.data)
            live.append((v, o))
            ctx.ev('constants')
            ctx.state(case['c'], v)
        for v, o in live:
            expect(o.value == v, '%s(%d) later holds %r', case['c'], v,
                   o.value)
        for v in [-1, -2, 2**48, 2**48 + 1, 2**49, 2**64, -2**47, -2**48] + \
                [v + 2**n for n in range(48, 140) for v in (0, 1)] + \
                [rng.getrandbits(48) - 2**n for n in range(48, 140)] + \
                [2**48 + rng.getrandbits(48) for _ in range(20)] + \
                [-1 - rng.getrandbits(48) for _ in range(20)]:
            expect_raises(call(cls, v), ValueError, '%s(%d)', case['c'], v)
            ctx.ev('constants_refused')


SHARE = [{'PRA', 'PRD', 'PRO'}, {'FNN', 'NA'}]


class C11(Check):
    id = 'C11'
    rule = ('the published tables are read and every machine mnemonic is '
            'constructed through the class its entry names over its whole '
            'operand domain, giving the observed map code -> mnemonics; the '
            'printed opcode map is captured and compared with it. Distinct '
            '= (code, mnemonic) pairs observed.')
    require = {'mnemonics': 64, 'codes': 2000, 'map_lines': 1000,
               'known': 110}

    def cases(self, ctx):
        if ctx.shard == 0:
            yield {'kind': 'tables'}
            yield {'kind': 'map'}
            yield {'kind': 'map', 'again': 1}
        for m in ctx.mine(sorted(ENC)):
            yield {'kind': 'entry', 'm': m}

    def run(self, ctx, case):
        if case['kind'] == 'tables':
            lst = list(I.INSTRUCTIONS)
            dup = [x for x, n in collections.Counter(lst).items() if n > 1]
            expect(not dup, 'instructions listed more than once: %r', dup)
            expect(set(lst) == set(gold.ALL), 'instruction list: missing %r, '
                   'unknown %r', sorted(set(gold.ALL) - set(lst)),
                   sorted(set(lst) - set(gold.ALL)))
            expect(set(I.OPCODES) == set(ENC), 'machine mnemonics: missing '
                   '%r, unknown %r', sorted(set(ENC) - set(I.OPCODES)),
                   sorted(set(I.OPCODES) - set(ENC)))
            ctx.ev('known', len(lst))
            owners = collections.defaultdict(set)
            for m in I.OPCODES:
                o = I.OPCODES[m]
                for kw, _ in legal(m):
                    owners[getattr(I, o.c)(**kw).value].add(m)
            for code, ms in sorted(owners.items()):
                expect(len(ms) == 1 or any(ms == s for s in SHARE),
                       'command code %04o is shared by %r', code, sorted(ms))
                for m in ms:
                    ctx.state(code, m)
                ctx.ev('codes')
            ctx.sample({'codes': len(owners)})
        elif case['kind'] == 'entry':
            m = case['m']
            o = I.OPCODES[m]
            expect(o.m == m, 'entry %s carries mnemonic %r', m, o.m)
            cls = getattr(I, o.c, None)
            expect(cls is not None, 'entry %s names class %r, which does not '
                   'exist', m, o.c)
            for kw, code in legal(m):
                got = expect_ok(call(cls, **kw), '%s %r', m, kw).value
                expect(got == code, '%s through its table entry %r: code '
                       '%04o, PRM gives %04o', m, kw, got, code)
                ctx.ev('codes')
            ctx.ev('mnemonics')
        else:
            buf = TextSink()
            with contextlib.redirect_stdout(buf):
                I.print_instructions()
            want = collections.defaultdict(set)
            for m in ENC:
                forms = ENC[m][1]
                for kw, code in legal(m):
                    if 'masked' in forms and 'mask' not in kw:
                        continue
                    want[code].add(m)
                if m == 'PR':
                    for s in (0, 1):
                        for a, b, c in ABC:
                            want[gold.encode('s00abc000000', s=s, a=a, b=b,
                                             c=c)].add(m)
            prev = -1
            seen = {}
            for line in buf.getvalue().splitlines():
                if not line.strip():
                    continue
                mt = re.match(r'^\s*0o([0-7]{4})\s+(\S+)\s*$', line)
                expect(mt, 'opcode map line %r', short(line))
                code, m = int(mt[1], 8), mt[2]
                expect(code > prev, 'opcode map: %04o after %04o', code, prev)
                prev = code
                expect(code in want, 'opcode map lists %04o as %s, which no '
                       'listed form encodes to', code, m)
                expect(m in want[code], 'opcode map lists %04o as %s, but it '
                       'is %r', code, m, sorted(want[code]))
                seen[code] = m
                ctx.ev('map_lines')
                ctx.state('map', code, m)
            miss = sorted(set(want) - set(seen))
            expect(not miss, 'opcode map lacks %r',
                   ['%04o' % x for x in miss[:10]])
            ctx.sample({'map lines': len(seen)})


class C22(Check):
    id = 'C22'
    rule = ('every entry of the published table is read and compared with '
            'the transcription of Table I; the inverse relation is built '
            'and checked for ambiguity. Distinct = (code, character).')
    require = {'codes': 64}

    def cases(self, ctx):
        if ctx.shard == 0:
            yield {'kind': 'table'}

    def run(self, ctx, case):
        from h800.charset import CHARSET
        expect(sorted(CHARSET) == list(range(64)), 'codes in the table: %r',
               sorted(CHARSET))
        inv = collections.defaultdict(list)
        for code in range(64):
            ch = CHARSET[code]
            want = gold.CHARSET[code]
            expect(ch is None or (isinstance(ch, str) and len(ch) == 1),
                   'code %d maps to %r', code, ch)
            expect(ch == want, 'code %d maps to %r, Table I gives %r', code,
                   ch, want)
            inv[ch].append(code)
            ctx.ev('codes')
            ctx.state(code, ch)
        for ch, codes in inv.items():
            expect(ch in (None, ' ') or len(codes) == 1,
                   'character %r belongs to codes %r', ch, codes)
        blocks = ((0, '0123456789'), (17, 'ABCDEFGHI'), (33, 'JKLMNOPQR'),
                  (50, 'STUVWXYZ'))
        for start, chars in blocks:
            for k, ch in enumerate(chars):
                expect(inv[ch] == [start + k], 'character %r has codes %r',
                       ch, inv[ch])
        ctx.sample({str(c): CHARSET[c] for c in (0, 17, 44, 63)})
