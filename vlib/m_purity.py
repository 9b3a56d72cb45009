"""C23: results depend only on the inputs; instances share no state."""
import copy
import os
import random
import re
import shutil
import signal
import sys
import traceback

from . import gold
from . import model as M
from . import tools as T
from .core import CASE_CPU_LIMIT, CaseTimeout, Check, Violation, call, expect, scribble, short
from .m_instr import ENC, construct, legal
from .m_symbols import captured
from .m_tools import instr_card
from h800 import arguscard, bitfield, charset, instruction, instructions
from h800 import memory, punchcard, registers, symbol_table, word

TABLES = {
    charset: 'CHARSET',
    instructions: 'OPCODES CONTROL_INSTRUCTIONS DATA_CONSTANTS '
                  'CONTROL_CONSTANTS EXTENDED_INSTRUCTIONS MISC_INSTRUCTIONS '
                  'ARGUS_INSTRUCTIONS INSTRUCTIONS',
    registers: 'REGISTERS ALIASES REGISTER_NAMES',
    symbol_table: 'TAG_PREFIXES'}


def plain(x):
    if isinstance(x, dict):
        return all(plain(k) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(plain(v) for v in x)
    return x is None or isinstance(x, (int, str, float, bytes))


def published():
    """Values of the tables of instructions, registers and characters."""
    out = {}
    for m, names in TABLES.items():
        for n in names.split():
            v = getattr(m, n, None)
            if plain(v) and isinstance(v, (dict, list, tuple, set)):
                out[m.__name__ + '.' + n] = repr(v)
    return out


ADDR = re.compile(r'0x[0-9a-fA-F]{6,}')


def obs(f, *a, **k):
    r = call(f, *a, **k)
    return ['ok', r.val] if r.ok else ['raise', type(r.exc).__name__]


def card_view(c):
    if c.isComment:
        return [c.line, 'comment']
    return [c.line, list(c.fields), list(c.strippedFields),
            sorted(c.record.items(), key=repr), c.filename, c.linenum]


def put(container, key, value):
    try:
        container[key] = value
    except TypeError:
        pass        # immutable, so nothing can be shared through it


def unmodified(before, after, what):
    expect(before == after, '%s: the caller\'s %s was modified: %s became '
           '%s', what, type(before).__name__, short(before), short(after))


# --- jobs: each takes its JSON description and a scratch directory, and
# --- returns everything observable about its result

def job_card(j, d):
    kw = {}
    if j.get('starts'):
        kw = {'fields': list(j['starts']), 'fieldnames': list(j['names']),
              'width': j['width']}
    given = copy.deepcopy(kw)
    cls = punchcard.PunchCard if j['plain'] else arguscard.Card
    r = obs(lambda: card_view(cls(j['line'], **kw)))
    unmodified(given, kw, 'card')
    return r


def job_lines(j, d):
    lines = list(j['lines'])
    mod = punchcard if j['plain'] else arguscard
    kw = {}
    if j.get('starts'):
        kw = {'fields': list(j['starts'])}
    given = copy.deepcopy(kw)

    def f():
        k = mod.Deck(lines, **kw)
        return [[card_view(c) for c in k.cards], list(k.lines),
                [list(x) for x in k.fields], str(k),
                None if j['plain'] else [k.log_section, k.log_section_col8]]
    r = obs(f)
    unmodified(list(j['lines']), lines, 'deck')
    unmodified(given, kw, 'deck layout')
    return r


def write_files(d, files):
    """Files that differ in nothing but their contents."""
    M.write_files(d, files)
    for f in files:
        os.utime(os.path.join(d, f), (10 ** 9, 10 ** 9))


def job_deck(j, d):
    write_files(d, j['files'])
    os.chdir(d)

    def f():
        k = arguscard.Deck(file=j['tops'][0])
        return [[card_view(c) for c in k.cards], k.log_section,
                k.log_section_col8]
    return obs(f)


def table_view(tab):
    return sorted([t, s, u, k, e['file'], e['line'], e['lognum'],
                   e['tagtype'], e['card'].line]
                  for t in tab for s in tab[t] for u in tab[t][s]
                  for k, e in tab[t][s][u].items())


def job_symbols(j, d):
    write_files(d, j['files'])
    os.chdir(d)
    tab = {}
    out = []
    with captured() as (o, e):
        for t in j['tops']:
            r = call(symbol_table.buildSymbolTable, t, tab)
            if not r.ok:
                out.append(['raise', type(r.exc).__name__])
                continue
            tab, n = r.val
            out.append([n, table_view(tab)])
        for n in j['names']:
            out.append(obs(symbol_table.findSymbolDef, tab, n, begin=True))
            out.append(obs(symbol_table.findSymbolDef, tab, n, end=True))
            out.append(obs(symbol_table.findSymbolDef, tab, n, fuzzy=True))
            r = obs(symbol_table.findSymbolDef, tab, n)
            out.append(table_view({n: r[1]}) if r[0] == 'ok' and r[1]
                       else r)
        out.append(obs(symbol_table.getAbsoluteSymbols, tab))
        out.append(obs(symbol_table.checkSymbolTable, tab,
                       complexOnlyError=True))
    return out + [ADDR.sub('@', o.getvalue()), ADDR.sub('@', e.getvalue())]


def job_encode(j, d):
    out = []
    for m, kw in j['todo']:
        given = dict(kw)
        out.append(obs(lambda: construct(m, kw).value))
        unmodified(given, kw, m)
    return out


def job_helpers(j, d):
    out = []
    for f, a in j['todo']:
        out.append(obs(getattr(instructions, f), *a))
    if j['map']:
        with captured() as (o, e):
            out.append(obs(instructions.print_instructions))
        out.append(o.getvalue())
    return out


def job_tool(j, d):
    write_files(d, j['files'])
    r = T.run_inproc(j['tool'], j['argv'], d)
    expect(not r.mon.escapes, '%s: operations outside its files: %r', r.what,
           r.mon.escapes[:3])
    err = ADDR.sub('@', r.err)
    if r.exc is not None:
        err = type(r.exc).__name__
    return [r.code, ADDR.sub('@', r.out), err,
            sorted((k, v[2].decode() if v[2] is not None else None)
                   for k, v in T.tree(d).items())]


def job_names(j, d):
    return [obs(registers.registerName, n) for n in range(-1, 33)] + \
        [obs(registers.registerAlias, n) for n in range(-1, 33)] + \
        [obs(registers.registerNumber, n) for n in j['names']]


# --- stores: histories over live instances

def mk_store(s):
    k = s[0]
    if k == 'bits':
        return bitfield.BitField(value=s[4], width=s[1], numbering=s[2],
                                 order=s[3])
    if k == 'word':
        return word.Word(s[1])
    if k == 'iword':
        return word.InstructionWord(*s[1:5])
    if k == 'bank':
        return memory.MemoryBank()
    if k == 'module':
        return memory.MemoryModule()
    if k == 'expansion':
        return memory.ExpansionMemoryModule()
    if k == 'reg':
        return registers.Register(s[2], name=s[1], width=s[3])
    if k == 'group':
        return registers.RegisterGroup(s[1])
    if k == 'regs':
        return registers.Registers(s[1])
    if k == 'symtab':
        return symbol_table.SymbolTable()
    raise AssertionError(k)


def store_op(o, s, op):
    """Apply one random operation of a store, returning what was seen."""
    k = s[0]
    rng = random.Random(op)
    if k == 'bits':
        ix = o.indices
        i = rng.choice(ix)
        c = rng.random()
        if c < 0.4:
            x, y = sorted([rng.randrange(s[1]), rng.randrange(s[1])])
            r = slice(ix[x], ix[y])
            if c < 0.2:
                return obs(o.__setitem__, r, rng.getrandbits(y - x + 1))
            return obs(lambda: [o[r], o[i], o.isBitSet(i),
                                o.isRangeSet(r.start, r.stop),
                                o.isRangeClr(r.start, r.stop), repr(o)])
        if c < 0.55:
            return obs(o.__setitem__, i, rng.randrange(2))
        if c < 0.7:
            return obs(setattr, o, 'value', rng.getrandbits(s[1]))
        if c < 0.8:
            return obs(o.set, i)
        if c < 0.9:
            return obs(o.clear, i)
        return obs(setattr, o, 'value', 2 ** s[1])
    if k in ('word', 'iword'):
        c = rng.random()
        if k == 'iword' and c < 0.6:
            return obs(setattr, o, rng.choice(['command', 'a', 'b', 'c']),
                       rng.randrange(4100))
        return obs(setattr, o, 'value', rng.getrandbits(48) if c < 0.9
                   else -1)
    if k in ('bank', 'module', 'expansion'):
        n = {'bank': 1, 'module': 4, 'expansion': 8}[k]
        b = o if k == 'bank' else o[rng.randrange(n)]
        c = rng.random()
        a = rng.choice([0, 1, 5, 2047])
        if c < 0.15:
            return obs(b.__getitem__, slice(a, min(a + 5, 2048)))
        if c < 0.3:
            return obs(b.__setitem__, slice(a, min(a + 3, 2048)),
                       rng.getrandbits(48))
        if c < 0.7:
            return obs(b.__setitem__, a, rng.getrandbits(48))
        if c < 0.8:
            return obs(b.clear)
        if c < 0.9:
            it = iter(b)
            return obs(lambda: [next(it).value for _ in range(3)])
        return obs(b.__setitem__, 2048, 1)
    if k == 'reg':
        c = rng.random()
        if c < 0.5:
            return obs(setattr, o, 'value', rng.getrandbits(16))
        if c < 0.65:
            return obs(o.__setitem__, rng.randint(1, 16), rng.randrange(2))
        if c < 0.75:
            a, b = sorted([rng.randint(1, 16), rng.randint(1, 16)])
            return obs(o.__setitem__, slice(a, b),
                       rng.getrandbits(b - a + 1))
        if c < 0.85:
            a, b = sorted([rng.randint(1, 16), rng.randint(1, 16)])
            return obs(lambda: [o[a:b], o[a], repr(o)])
        return obs(o.clear)
    if k in ('group', 'regs'):
        g = o if k == 'group' else o[rng.randrange(8)]
        c = rng.random()
        n = rng.choice([0, 1, 28, 31])
        if c < 0.4:
            return obs(setattr, g[n], 'value', rng.getrandbits(16))
        if c < 0.55:
            return obs(lambda: [g[registers.registerName(n)].value,
                                g[n].value, repr(g), repr(g[n])])
        if c < 0.6:
            obs(g.__setitem__, rng.choice([n, registers.registerName(n)]),
                registers.Register(rng.getrandbits(16), width=s[1],
                                   name=registers.registerName(n)))
            return obs(lambda: g[n].value)
        if c < 0.7:
            return obs(g.clear)
        if c < 0.8:
            return obs(lambda: [r.value for r in g])
        return obs(g[registers.registerName(n)].__setitem__, 3, 1)
    if k == 'symtab':
        n = rng.choice(['A', 'B', 'C'])
        c = rng.random()
        with captured() as (out, err):
            if c < 0.6:
                r = obs(o.add, n, 'f', rng.randrange(99),
                        rng.choice([None, 1, 2]))
            elif c < 0.8:
                r = obs(o.update, n, rng.randrange(9), 'absolute')
            else:
                r = obs(o.pruneUndefines)
        return r + [out.getvalue()]
    raise AssertionError(k)


def store_view(o, s):
    k = s[0]
    if k == 'bits':
        scribble(mk_store(s).indices)
        return [o.value, list(o.indices), o.lsb, o.msb]
    if k == 'word':
        return [o.value]
    if k == 'iword':
        return [o.value, int(o.command), int(o.a), int(o.b), int(o.c)]
    if k == 'bank':
        return [o[a] for a in range(2048)]
    if k in ('module', 'expansion'):
        return [o[b][a] for b in range(len(o))
                for a in (0, 1, 2, 5, 2046, 2047)]
    if k == 'reg':
        return [o.value, o.name, o.width]
    if k == 'group':
        return [[o[i].value, o[i].name] for i in range(32)]
    if k == 'regs':
        return [o[g][i].value for g in range(8) for i in range(32)]
    return [sorted((n, e.value, e.line) for n, e in o.symbols.items()),
            list(o.undefines)]


def random_store(rng):
    k = rng.choice(['bits', 'bits', 'word', 'iword', 'bank', 'module',
                    'expansion', 'reg', 'group', 'regs', 'symtab'])
    if k == 'bits':
        w = rng.choice([1, 8, 12, 48, 64])
        return [k, w, rng.choice(bitfield_schemes()), rng.choice(
            bitfield_orders()), rng.getrandbits(w)]
    if k == 'word':
        return [k, rng.getrandbits(48)]
    if k == 'iword':
        return [k] + [rng.randrange(4096) for _ in range(4)]
    if k == 'reg':
        return [k, rng.choice(['AU1', 'CSC', 'X0']), rng.getrandbits(16),
                rng.choice([16, 24])]
    if k in ('group', 'regs'):
        return [k, rng.choice([16, 24])]
    return [k]


def bitfield_schemes():
    from .m_bitfield import SCHEMES
    return list(SCHEMES.values())


def bitfield_orders():
    from .m_bitfield import ORDERS
    return list(ORDERS.values())


JOBS = {'card': job_card, 'lines': job_lines, 'deck': job_deck,
        'symbols': job_symbols, 'encode': job_encode,
        'helpers': job_helpers, 'tool': job_tool, 'names': job_names}


def safe(lines):
    return [' ' + x[1:] if x.startswith('$') and not (
        x[1:].split() and x[1:].split()[0] in M.INCNAMES) else x
        for x in lines]


def layout(rng, j):
    if rng.random() < 0.4:
        n = rng.randint(2, 9)
        j['starts'] = sorted(rng.sample(range(1, 81), n))
        j['names'] = ['q%d' % i for i in range(n)]
        j['width'] = rng.choice([80, 100, 120])
    return j


def random_job(rng, shared, k=None):
    k = k or rng.choice(['card', 'card', 'lines', 'deck', 'symbols', 'symbols',
                    'encode', 'encode', 'helpers', 'tool', 'tool', 'tool',
                    'names'])
    j = {'job': k}
    if k == 'card':
        j.update(line=rng.choice(shared['lines']), plain=rng.random() < 0.4)
        if j['plain']:
            layout(rng, j)
    elif k == 'lines':
        j.update(lines=rng.sample(shared['lines'], rng.randint(0, 8)),
                 plain=rng.random() < 0.4)
        if j['plain'] and rng.random() < 0.3:
            n = len(M.STARTS)
            j['starts'] = sorted(rng.sample(range(1, 81), n))
    elif k in ('deck', 'symbols', 'tool'):
        files, tops = rng.choice(shared['trees'])
        j.update(files=files, tops=tops)
        if k == 'symbols':
            j['names'] = rng.sample(M.LABELS, 3)
            if rng.random() < 0.3:
                j['tops'] = tops[::-1]
        if k == 'tool':
            t = j['tool'] = rng.choice(
                ['listing', 'parse', 'check-instructions', 'check-symbols',
                 'find-symbols', 'list-symbols', 'list-instructions',
                 'genlines'])
            j['argv'] = {'check-instructions': rng.choice(
                [['-c', '-u'], ['-c', '-s'], ['-c', '-s', '-u'], ['-u']]),
                         'check-symbols': ['-c'],
                         'find-symbols': rng.choice(
                             [[], ['-b'], ['-e'], ['-f']]) +
                         [rng.choice(M.LABELS + ['A', 'L', '1'])],
                         'list-instructions': [rng.choice(['BA', 'TX,'])]
                         }.get(t, []) + tops
            if t == 'genlines':
                j['argv'] = ['1', str(rng.randint(1, 30)), '2']
    elif k == 'encode':
        todo = []
        for _ in range(12):
            m = rng.choice(sorted(ENC))
            kw = dict(rng.choice(legal(m))[0])
            if rng.random() < 0.3 and kw:
                kw[rng.choice(sorted(kw))] = rng.choice([-1, 64, 2])
            todo.append([m, kw])
        j['todo'] = todo
    elif k == 'helpers':
        todo = []
        for _ in range(10):
            m = rng.choice(sorted(ENC))
            f = ENC[m][1]
            s, a, b, c = [rng.randrange(2) for _ in range(4)]
            if 'masked' in f and rng.random() < 0.5:
                todo.append(['make_masked_opcode', [m, s, rng.randrange(32)]])
            elif 'peripheral' in f:
                todo.append(['make_peripheral_opcode', [m,
                                                        rng.randrange(64)]])
            elif 'print' in f:
                todo.append(['make_print_opcode', [m, s, a, b, c]])
            elif 'unmasked' in f and m != 'PR':
                todo.append(['make_unmasked_opcode', [m, s, a, b, c]])
        j.update(todo=todo, map=rng.random() < 0.2)
    elif k == 'names':
        j['names'] = ['AU1', 'CSC', 'RAC', 'DWAC', 'X0', 'nope', 'au1']
    return j


def in_child(f):
    """Run f in a forked child; its JSON-able result or its violation."""
    import json
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
            try:
                res = {'ok': f()}
            except CaseTimeout:
                res = {'violation': 'the operations did not finish within '
                       '%d s of CPU time' % CASE_CPU_LIMIT}
            except Violation as e:
                res = {'violation': str(e)}
            except (TypeError, AttributeError, LookupError,
                    ValueError) as e:
                res = {'violation': 'an observed result has the wrong shape: '
                       '%s: %s' % (type(e).__name__, e)}
            except BaseException:
                res = {'error': traceback.format_exc()}
            with os.fdopen(w, 'w') as p:
                json.dump(res, p, default=repr)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as p:
        text = p.read()
    os.waitpid(pid, 0)
    if not text:
        raise RuntimeError('child died')
    res = json.loads(text)
    if 'violation' in res:
        raise Violation(res['violation'])
    if 'error' in res:
        raise RuntimeError(res['error'])
    return res['ok']


def first_diff(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d vs %d entries' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, '%s[%d]' % (path, i))
    return '%s: %s vs %s' % (path, short(a, 160), short(b, 160))


class C23(Check):
    id = 'C23'
    shrink = ('order',)
    rule = ('random sets of jobs (cards, decks, symbol tables and queries, '
            'encodings legal and refused, helpers, tools) are each executed '
            'alone in a pristine process and then in one process in random '
            'order with repetitions; all observed results must be equal and '
            'the published tables and the caller\'s arguments unchanged. '
            'Interleaved histories over several live instances are compared '
            'with the same histories run one instance at a time, and cards, '
            'decks and tables are checked for shared containers and for '
            'saying the same after others are made. Tools are also run as '
            'processes with other hash seeds, time zones and home '
            'directories. Distinct = job results and store states '
            'observed.')
    require = {'jobs_alone': 1000, 'jobs_in_history': 2500,
               'tables_compared': 150, 'stores': 500, 'store_ops': 5000,
               'containers': 500, 'environment_runs': 60,
               'retained': 200, 'crowd': 200000}

    def cases(self, ctx):
        rng = ctx.rng
        for what, k in ctx.mine([
                ('word', 140000), ('bits', 70000), ('registers', 300),
                ('banks', 40), ('registry', 20000), ('card', 70000)]):
            yield {'kind': 'crowd', 'what': what, 'n': k,
                   'rs': rng.randrange(10 ** 9)}
        n = ctx.share(12000 if ctx.thorough else 640)
        for i in range(n):
            k = i % 8
            if i % 32 == 13:
                files, tops = M.file_tree(rng, 12, rng.choice(
                    [M.symbol_card, instr_card]))
                j = random_job(rng, {'trees': [(
                    {f: safe(x) for f, x in files.items()}, tops)],
                    'lines': ['']}, 'tool')
                yield {'kind': 'environment', 'job': j,
                       'seeds': rng.sample(range(1, 10 ** 6), 3)}
            elif k < 4:
                shared = {'lines': [M.random_card_line(rng) +
                                    rng.choice(['', '\n'])
                                    for _ in range(10)] + ['# c', '# d\n'],
                          'trees': []}
                for _ in range(2):
                    files, tops = M.file_tree(rng, 12, rng.choice(
                        [M.symbol_card, instr_card]))
                    shared['trees'].append(
                        ({f: safe(x) for f, x in files.items()}, tops))
                if rng.random() < 0.5:
                    # the same names and sizes, other contents
                    files, tops = shared['trees'][0]
                    shared['trees'][1] = (
                        {f: rng.sample(x, len(x)) for f, x in files.items()},
                        tops)
                if rng.random() < 0.4:
                    # a file missing from one of them
                    files, tops = shared['trees'][0]
                    gone = rng.choice(sorted(files))
                    shared['trees'].append(
                        ({f: x for f, x in files.items() if f != gone},
                         tops))
                jobs = [random_job(rng, shared)
                        for _ in range(rng.randint(4, 12))]
                order = [rng.randrange(len(jobs))
                         for _ in range(3 * len(jobs))] + \
                    list(range(len(jobs)))
                rng.shuffle(order)
                yield {'kind': 'jobs', 'jobs': jobs, 'order': order,
                       'samedir': rng.random() < 0.5}
            elif k < 6 and i % 16 == 5:
                trees = []
                for _ in range(3):
                    files, tops = M.file_tree(rng, 12, M.symbol_card)
                    trees.append([{f: safe(x) for f, x in files.items()},
                                  tops])
                yield {'kind': 'retained', 'trees': trees,
                       'cards': [layout(rng, {
                           'line': M.random_card_line(rng)})
                           for _ in range(12)],
                       'codes': [[m, rng.choice(legal(m))[0]] for m in
                                 rng.sample(sorted(ENC), 12)]}
            elif k < 6:
                stores = [random_store(rng) for _ in range(5)]
                stores += [list(rng.choice(stores)) for _ in range(3)]
                order = [[rng.randrange(len(stores)), rng.randrange(10 ** 9)]
                         for _ in range(rng.choice([20, 120, 200]))]
                yield {'kind': 'stores', 'stores': stores, 'order': order}
            else:
                files, tops = M.file_tree(rng, 12, M.symbol_card)
                yield {'kind': 'containers', 'line': M.random_card_line(rng),
                       'files': {f: safe(x) for f, x in files.items()},
                       'top': tops[0], 'rs': rng.randrange(10 ** 9)}

    def run(self, ctx, case):
        getattr(self, case['kind'])(ctx, case)

    def jobs(self, ctx, case):
        jobs, order = case['jobs'], case['order']

        def one(j, d, n):
            top = d
            d = os.path.join(top, 'same' if case.get('samedir') else
                             'j%d' % n)
            if os.path.isdir(d):
                # the same absolute file names with other contents
                os.chdir(top)
                shutil.rmtree(d)
            os.mkdir(d)
            os.chdir(d)
            return JOBS[j['job']](copy.deepcopy(j), d)
        with ctx.tmpdir() as d:
            os.chdir(d)
            used = sorted(set(order))
            alone = {i: in_child(lambda: one(jobs[i], d, 10000 + i))
                     for i in used}
            ctx.ev('jobs_alone', len(used))

            def history():
                pub = published()
                out = []
                for n, i in enumerate(order):
                    out.append(one(jobs[i], d, n))
                now = published()
                for k in pub:
                    expect(now.get(k) == pub[k], 'published table %s was '
                           'modified: %s became %s', k, short(pub[k], 200),
                           short(now.get(k), 200))
                return [out, len(pub)]
            got, npub = in_child(history)
            ctx.ev('jobs_in_history', len(order))
            ctx.ev('tables_compared', npub)
            for n, i in enumerate(order):
                expect(got[n] == alone[i], 'job %d (%s) as operation %d of a '
                       'history gives another result than alone: %s', i,
                       short({k: v for k, v in jobs[i].items()
                              if k not in ('files',)}, 200), n,
                       first_diff(got[n], alone[i]))
            for i in used:
                ctx.state(jobs[i]['job'], alone[i])
        ctx.sample({'jobs': [j['job'] for j in jobs], 'order': order})

    def environment(self, ctx, case):
        """A tool run as a process, with other hash seeds, time zones, home
        and working directories and file times: the result is that of the
        plain run."""
        j = case['job']
        seen = []
        with ctx.tmpdir() as d:
            for n, env in enumerate([{}] + [
                    {'PYTHONHASHSEED': str(x), 'TZ': 'XYZ%d' % (x % 12),
                     'HOME': '/',
                     'USER': 'u%d' % x} for x in case['seeds']]):
                w = os.path.join(d, ['same', 'same', 'x.y z', 'Other/sub',
                                     'inc1'][n % 5])
                if os.path.isdir(w):
                    shutil.rmtree(w)
                os.makedirs(w)
                M.write_files(w, j['files'])
                if n % 2:
                    for k, name in enumerate(sorted(j['files'])):
                        t = (0, 2 ** 33, 10 ** 9)[(k + n // 2) % 3]
                        os.utime(os.path.join(w, name), (t, t))
                r = T.run_process(j['tool'], j['argv'], w, env)
                seen.append([r.code, ADDR.sub('@', r.out),
                             ADDR.sub('@', r.err), sorted(
                    (k, v[2].decode() if v[2] is not None else None)
                    for k, v in T.tree(w).items())])
                expect(seen[n] == seen[0], '%s: another result with '
                       'environment %r: %s', r.what, env,
                       first_diff(seen[n], seen[0]))
                ctx.ev('environment_runs')
        ctx.state('environment', j['tool'], seen[0])

    def stores(self, ctx, case):
        stores, order = case['stores'], case['order']

        def together():
            live = [obs(mk_store, s)[-1] for s in stores]
            seen = [[] for _ in stores]
            for i, op in order:
                seen[i].append(obs(store_op, live[i], stores[i], op))
            return [[seen[i], obs(store_view, live[i], s)]
                    for i, s in enumerate(stores)]

        def alone(i):
            s = stores[i]
            o = obs(mk_store, s)[-1]
            seen = [obs(store_op, o, s, op) for k, op in order if k == i]
            return [seen, obs(store_view, o, s)]
        a = in_child(together)
        for i, s in enumerate(stores):
            b = in_child(lambda: alone(i))
            expect(a[i] == b, 'instance %d (%r) among other live instances '
                   'differs from the same history alone: %s', i, s,
                   first_diff(a[i], b))
            expect(b[1][0] == 'ok', 'instance %r: %r', s, b[1])
            ctx.ev('stores')
            ctx.state(s, b)
        ctx.ev('store_ops', len(order))
        ctx.sample({'stores': [s[0] for s in stores],
                    'operations': len(order)})

    def retained(self, ctx, case):
        """What an object says when made, it says after others are made."""
        kept = []

        def keep(what, view, o):
            kept.append((what, view, o, view(o)))
            ctx.ev('retained')

        def deck_view(k):
            return [[card_view(c) for c in k.cards], str(k),
                    [list(x) for x in k.fields],
                    [list(x) for x in k.strippedFields],
                    [sorted(x.items(), key=repr) for x in k.records]]
        for j in case['cards']:
            kw = {'fields': list(j['starts']), 'width': j['width'],
                  'fieldnames': list(j['names'])} if 'starts' in j else {}
            keep('card', card_view, punchcard.PunchCard(j['line'], **kw))
            if not j['line'].startswith('#'):
                keep('ARGUS card', card_view, arguscard.Card(j['line']))
        for n, (files, tops) in enumerate(case['trees']):
            with ctx.tmpdir() as d:
                M.write_files(d, files)
                os.chdir(d)
                for t in tops:
                    keep('deck', deck_view, arguscard.Deck(file=t))
                    with captured():
                        keep('symbol table', table_view,
                             symbol_table.buildSymbolTable(t, {})[0])
        for m, kw in case['codes']:
            with captured():
                keep(m, lambda o: o.value, construct(m, dict(kw)))
        for what, view, o, v in kept:
            expect(view(o) == v, '%s changed while others were made: %s',
                   what, first_diff(view(o), v))
            ctx.state(what, v)

    def crowd(self, ctx, case):
        """Very many live instances, each with a value of its own."""
        rng = random.Random(case['rs'])
        n = case['n']
        k = case['what']
        made = []
        if k == 'word':
            for i in range(n):
                made.append((word.Word(i), i))
            for o, i in made[::7]:
                o.value = i + n
            for i, (o, _) in enumerate(made):
                want = i if i % 7 else i + n
                expect(o.value == want, 'word %d of %d live ones holds %r, '
                       'last written %r', i, n, o.value, want)
        elif k == 'bits':
            for i in range(n):
                made.append(bitfield.BitField(i % 256, width=8 + i % 50))
            for i, o in enumerate(made):
                o[3] = i // 256 % 2
            for i, o in enumerate(made):
                want = (i % 256) & ~8 | (i // 256 % 2) << 3
                expect(o.value == want, 'bit-field %d of %d live ones holds '
                       '%r, last written %r', i, n, o.value, want)
        elif k == 'registers':
            for i in range(n):
                made.append(registers.Registers(16 if i % 2 else 24))
            for i, o in enumerate(made):
                for g in range(8):
                    o[g][g * 4].value = i * 8 + g
            for i, o in enumerate(made):
                got = [o[g][r].value for g in range(8) for r in range(32)]
                want = [i * 8 + g if r == g * 4 else 0 for g in range(8)
                        for r in range(32)]
                expect(got == want, 'register set %d of %d live ones holds '
                       '%r', i, n, got)
        elif k == 'banks':
            for i in range(n):
                made.append(memory.MemoryBank())
            for i, o in enumerate(made):
                for a in range(2048):
                    o[a] = i * 2048 + a
            for i, o in enumerate(made):
                expect(o[0:2048] == [i * 2048 + a for a in range(2048)],
                       'bank %d of %d live ones does not hold what was last '
                       'written', i, n)
        elif k == 'registry':
            with captured():
                for i in range(n):
                    o = symbol_table.SymbolTable()
                    o.add('S%d' % (i % 50), 'f%d' % i, i + 1,
                          None if i % 2 else i)
                    made.append(o)
            for i, o in enumerate(made):
                e = o.lookup('S%d' % (i % 50))
                expect(o.getNumSymbols() == 1 and e is not None and
                       (e.file, e.line) == ('f%d' % i, i + 1) and
                       o.getNumUndefs() == i % 2, 'registry %d of %d live '
                       'ones does not hold its one symbol', i, n)
        else:
            lines = [M.random_card_line(rng) for _ in range(50)]
            for i in range(n):
                x = '%s%06d%s' % (lines[i % 50][:1] or ' ', i,
                                  lines[i % 50][7:])
                if x[0] == '#':
                    x = ' ' + x[1:]
                made.append((arguscard.Card(x, linenum=i + 1), x, i + 1))
            for c, x, i in made:
                expect(c.line == x and c.linenum == i and
                       c.lognum == x[1:7] and c.column1 ==
                       (x[0].strip() or None), 'card %d of %d live ones '
                       'reads %r, is %r', i, n, c.line, x)
        ctx.ev('crowd', n)
        ctx.state('crowd', k, n)

    def containers(self, ctx, case):
        line = case['line']
        with ctx.tmpdir() as d:
            M.write_files(d, case['files'])
            os.chdir(d)
            for cls in (punchcard.PunchCard, arguscard.Card):
                a, b = cls(line), cls(line)
                before = card_view(b)
                put(a.fields, 0, 'CHANGED')
                put(a.strippedFields, 0, 'CHANGED')
                put(a.record, 'column1', 'CHANGED')
                put(a.record, 'label', 'CHANGED')
                expect(card_view(b) == before, 'changing one card changed '
                       'another card of the same line %r', line)
                expect(card_view(cls(line)) == before, 'a new card of line '
                       '%r shows changes made to another card', line)
                ctx.ev('containers', 2)
            m = call(arguscard.Deck, file=case['top'])
            if m.ok:
                k1, k2 = m.val, arguscard.Deck(file=case['top'])
                before = [card_view(c) for c in k2.cards]
                n = len(before)
                for lst in (k1.cards, k1.fields, k1.records, k1.lines,
                            k1.strippedFields):
                    if isinstance(lst, list):
                        del lst[:]
                expect([card_view(c) for c in k2.cards] == before and
                       len(k2.fields) == len(k2.records) ==
                       len(k2.lines) == len(k2.strippedFields) == n,
                       'emptying one deck changed another')
                ctx.ev('containers', 2)
            with captured():
                t1, _ = symbol_table.buildSymbolTable(case['top'], {})
                t2, _ = symbol_table.buildSymbolTable(case['top'], {})
                v = table_view(t2)
                for t in t1:
                    for s in t1[t]:
                        t1[t][s].clear()
                t1.clear()
                expect(table_view(t2) == v, 'emptying one symbol table '
                       'changed another')
                t3, _ = symbol_table.buildSymbolTable(case['top'], {})
                expect(table_view(t3) == v, 'a new symbol table shows '
                       'changes made to another')
            ctx.ev('containers', 2)
            e1 = symbol_table.SymbolTable()
            e2 = symbol_table.SymbolTable()
            with captured():
                e1.add('A', 'f', 1)
                e2.add('A', 'f', 1)
                e1.lookup('A').addReference('r')
            expect(list(e2.lookup('A').references) == [],
                   'references are shared between registries')
            ctx.state('containers', line)
