"""C15-C17: symbol tables, symbol queries and the symbol registry."""
import contextlib
import io
import os
import random
import re

from . import gold
from . import model as M
from .core import Check, TextSink, call, expect, expect_ok, expect_val, scribble, \
    short, \
    steps, tighten
from h800 import symbol_table as ST
from fuzzywuzzy import process


@contextlib.contextmanager
def captured():
    out, err = TextSink(), TextSink()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def flatten(tab):
    """(tag, seg, subseg, kind) -> entry of a real table."""
    out = {}
    for tag, segs in tab.items():
        expect(segs, 'symbol %r is in the table without any definition', tag)
        for seg, subs in segs.items():
            expect(subs, 'symbol %r segment %r is empty', tag, seg)
            for sub, kinds in subs.items():
                expect(kinds, 'symbol %r %r/%r is empty', tag, seg, sub)
                for kind, e in kinds.items():
                    out[(tag, seg, sub, kind)] = e
    return out


def compare_table(tab, msym, what):
    got = flatten(tab)
    if set(got) != set(msym.tab):
        miss = sorted(set(msym.tab) - set(got))[:3]
        extra = sorted(set(got) - set(msym.tab))[:3]
        expect(False, '%s: definitions missing %r, unexpected %r', what,
               miss, extra)
    for k, m in msym.tab.items():
        e = got[k]
        for f in ('file', 'line', 'lognum', 'tagtype'):
            expect(e[f] == m[f], '%s: %r has %s %r, the source says %r',
                   what, k, f, e[f], m[f])
        c = e['card']
        expect(c.line == m['mcard'].line and c.filename == m['file'] and
               c.linenum == m['line'],
               '%s: %r is tied to card %s:%s %r, defined by %s:%s %r', what,
               k, c.filename, c.linenum, c.line, m['file'], m['line'],
               m['mcard'].line)
    return got


def snapshot(tab):
    return {k: (id(e), e['file'], e['line'], e['lognum'], e['tagtype'],
                id(e['card']), e['card'].line)
            for k, e in flatten(tab).items()}


def count_errors(err):
    return len(re.findall(r'^\*\*\* ERROR', err, re.M))


def label_card(tag, op='BA', **kw):
    return M.mkline(label=tag, operation=op, **kw)


def scripted():
    """Histories aimed at the corners of the definition rules."""
    eq = dict(operand1='A', operand2='B', operand3='C')
    L = label_card
    S = []

    def add(*lines, files=None, tops=None):
        fs = {'p.argus': list(lines)}
        fs.update(files or {})
        S.append({'files': fs, 'tops': tops or ['p.argus'], 'nonl': []})
    add(L('T', 'EQUALS', **eq), L('T', 'EQUALS', **eq))
    for k in eq:
        add(L('T', 'EQUALS', **eq), L('T', 'EQUALS', **dict(eq, **{k: 'Q'})))
        add(L('T', 'EQUALS', **eq), L('T', 'EQUALS', **dict(eq, **{k: ''})))
        add(L('T', 'EQUALS', **dict(eq, **{k: ''})), L('T', 'EQUALS', **eq))
    add(L('T', 'EQUALS', **eq), L('T', 'BA', **eq))
    add(L('T', 'BA', **eq), L('T', 'EQUALS', **eq))
    add(L('T', 'BA', **eq), L('T', 'BA', **eq))
    add(L('T', 'ASSIGN', **eq), L('T', 'ASSIGN', **eq))
    add(L('T', 'ASSIGN', **eq), L('T', 'EQUALS', **eq), L('T', 'EQUALS', **eq))
    add(L('T', 'EQUALS', **eq), L('T', 'ASSIGN', **eq), L('T', 'EQUALS', **eq))
    add(L('T', 'EQUALS', **eq), L('T', 'EQUALS', **dict(eq, operand1='Z')),
        L('T', 'EQUALS', **dict(eq, operand1='Z')), L('T', 'EQUALS', **eq))
    add(L('T', 'BA'), L('T', 'ASSIGN'))
    add(L('T', 'ASSIGN'), L('T', 'BA'))
    add(L('T'), L('', 'SETLOC'), L('T'), L('', 'SETLOC,1'), L('T'))
    add(L('T'), L('', 'SETLOC,2'), L('T'), L('', 'SETLOC,3'), L('T'),
        L('', 'SETLOC,2'), L('T'))
    add(L('T', 'SETLOC,2'), L('T'), L('T', 'SETLOC'), L('T'))
    add(L('', 'SETLOC,2', column8='*'), L('T'))
    add(L('T', column8='*'), L('T'))
    for p in 'BFSZLXAbq1':
        add(L(p + ',T'), L('T'))
        add(L('T'), L(p + ',T'))
        add(L(p + ',T', ''))
        add(L(p + ',T,U'))
    add(L('t'), L('T'))
    add(L('T', ''), L('T'))
    add(L('A B C'), L('ABC'))
    add(L('F , A B'), L('AB'))
    # the same tag in several files, included files and segments
    add(L('T'), '$inc1', L('U'), files={'inc1': [L('T'), L('V'),
                                                 L('', 'SETLOC,5')]})
    add('$inc1', '$inc1', files={'inc1': [L('T'), L('U', 'EQUALS', **eq)]})
    add(L('T'), files={'q.argus': [L('T'), L('U')], 'r.argus': [L('U')]},
        tops=['p.argus', 'q.argus', 'r.argus'])
    add(L('T'), tops=['p.argus', 'p.argus'])
    add(L('', 'SETLOC,7'), L('T'), files={'q.argus': [L('T')]},
        tops=['p.argus', 'q.argus'])
    add(L('T'), L('U', 'EQUALS', **eq),
        files={'p.second.argus': [L('T'), L('U', 'EQUALS', **eq), L('W')]},
        tops=['p.argus', 'p.second.argus'])
    add(files={'d/p.argus': [L('T')], 'd.argus': [L('T')]},
        tops=['p.argus', 'd/p.argus', 'd.argus'])
    for c1 in 'PRL':
        add(L('T', column1=c1), L('T'), L('', 'SETLOC,2', column1=c1),
            L('U'))
    for op in gold.ALL:
        add(L('T', op), L('T', op), L('T', 'ASSIGN'))
    # near-equal operands, labels, subsegments and file names: apart in one
    # character at each position, or in length
    big = {k: 'TRAJECTORYPT12' for k in eq}
    for k in eq:
        n = M.SPAN[k][1]
        for i in range(n):
            other = big[k][:i] + 'Z' + big[k][i + 1:n]
            add(L('T', 'EQUALS', **big),
                L('T', 'EQUALS', **dict(big, **{k: other})))
            add(L('T', 'EQUALS', **dict(big, **{k: big[k][:i]})),
                L('T', 'EQUALS', **dict(big, **{k: big[k][:n]})))
            add(L('T', 'EQUALS', **big),
                L('T', 'EQUALS', **dict(big, **{k: big[k][:i] + ' ' +
                                                big[k][i + 1:n]})))
    base = 'TRAJECTORYP'
    for i in range(len(base)):
        for x in ('Z', 't', '1', '-'):
            other = base[:i] + x + base[i + 1:]
            add(L(base), L(other), L(base, 'ASSIGN'), L(other, 'EQUALS'))
        add(L(base), L(base[:i]), L(base[i:]))
        add(L(base[:9]), L('B,' + base[:i]), L('F,' + base[:9]))
    for i in range(1, 6):
        a, b = '123456'[:i], '123456'[:i - 1] + '9'
        add(L('', 'SETLOC,' + a), L('T'), L('', 'SETLOC,' + b), L('T'),
            L('', 'SETLOC,' + a), L('T'), L('U'), L('', 'SETLOC'), L('U'))
    for a, b in (('alpha1.argus', 'alpha2.argus'), ('alpha.argus',
                 'Alpha.argus'), ('a.argus', 'aa.argus'),
                 ('longsegmentname1', 'longsegmentname2'),
                 ('d1/alpha.argus', 'd2/beta.argus')):
        add(files={a: [L('T'), L('T')], b: [L('T'), L('U'), L('U')]},
            tops=[a, b, a])
    return S


def build_case(rng):
    files, tops = M.file_tree(rng, rng.choice([4, 12, 30, 60]))
    for name in files:
        files[name] = [' ' + x[1:] if x.startswith('$') and
                       not (x[1:].split() and
                                x[1:].split()[0] in files) else x
                       for x in files[name]]
    if rng.random() < 0.2:
        tops = tops + [rng.choice(tops)]
    return {'files': files, 'tops': tops,
            'nonl': [n for n in files if rng.random() < 0.2],
            'verbose': rng.random() < 0.08, 'style': rng.choice(M.STYLES)}


def large():
    """Sources with thousands of labels, errors, subsegments, files."""
    def many(n, op, fmt='S%d'):
        return [M.mkline(label=fmt % (k * 7919 % 100003), operation=op)
                for k in range(n)]
    for files in (
            {'a.argus': many(6000, 'BA') + many(3000, 'ASSIGN')},
            {'a.argus': many(3000, 'BA') * 2},
            {'a.argus': many(3000, 'BA', 's%d') + many(3000, '')},
            {'a.argus': [x for k in range(1500) for x in
                         [M.mkline(operation='SETLOC,%d' % k)] +
                         many(2, 'BA')]},
            {'a.argus': ['R'] * 100001 + many(30, 'EQUALS') * 2},
            {'f%d.argus' % k: many(20, 'BA') for k in range(60)}):
        yield {'files': files, 'tops': list(files), 'nonl': []}


class C15(Check):
    id = 'C15'
    rule = ('scripted histories at every corner of the definition rules plus '
            'random source trees (1-4 sources sharing one table, includes, '
            'SETLOCs, prefixes, ill-formed labels, repeated definitions); '
            'after every build the whole table, the returned count and the '
            'errors on stderr are compared with a reference model, and the '
            'earlier entries with a snapshot. Distinct = source trees that '
            'yielded a definition or an error.')
    require = {'builds': 1500, 'definitions': 8000, 'errors_multiple': 300,
               'errors_case': 200, 'errors_commas': 100,
               'errors_prefix': 200, 'errors_operation': 200,
               'equals_repeats': 50, 'second_builds': 400}

    def cases(self, ctx):
        rng = ctx.rng
        for c in ctx.mine(scripted()):
            yield c
        for c in ctx.mine(large()):
            yield c
        for _ in range(ctx.share(300000 if ctx.thorough else 15000)):
            yield build_case(rng)

    def run(self, ctx, case):
        files, tops = case['files'], case['tops']
        with ctx.tmpdir() as d:
            files, tops, _, cwd = M.lay_out(d, files, tops, case['nonl'],
                                            case.get('style'))
            os.chdir(cwd)
            ms = M.MSym()
            tab = {}
            for i, top in enumerate(tops):
                before = snapshot(tab)
                handed = tab
                errs = ms.build(files, top)
                kw = {'verbose': True} if case.get('verbose') else {}
                with captured() as (out, err):
                    r = call(ST.buildSymbolTable, top, tab,
                             *kw.values()) if i % 2 else \
                        call(ST.buildSymbolTable, top, tab, **kw)
                what = 'build %d (%s)' % (i, top)
                res = expect_ok(r, what)
                expect(isinstance(res, tuple) and len(res) == 2,
                       '%s returned %s', what, short(res))
                tab, n = res
                compare_table(tab, ms, what)
                expect(snapshot(handed) == snapshot(tab),
                       '%s: the given table and the returned one differ',
                       what)
                after = snapshot(tab)
                for k, v in before.items():
                    expect(after.get(k) == v, '%s: earlier definition %r '
                           'changed', what, k)
                expect(n == len(errs), '%s: %d errors returned, the source '
                       'has %d: %r', what, n, len(errs), errs)
                text = err.getvalue()
                expect(count_errors(text) == len(errs), '%s: %d errors '
                       'reported on stderr, the source has %d: %r', what,
                       count_errors(text), len(errs), errs)
                for sym, why in errs:
                    expect(sym in text, '%s: the error for %r (%s) is not '
                           'reported', what, sym, why)
                    ctx.ev('errors_' + why)
                ctx.ev('builds')
                ctx.ev('second_builds', 1 if i else 0)
            ctx.ev('definitions', len(ms.tab))
            ctx.ev('equals_repeats', ms.repeats)
            if ms.tab or any(ms.errors):
                ctx.state(sorted(files.items()), tops)
            ctx.sample({'tops': tops, 'definitions': len(ms.tab),
                        'errors': [len(e) for e in ms.errors],
                        'files': {k: v[:3] for k, v in files.items()}})


NAMES = ['A', 'AB', 'ABC', 'BC', 'C', 'ALPHA', 'ALPHA1', 'BETA', '1BETA',
         'LOOP', 'LOOP1', 'LOOP2', 'XLOOP', 'X', 'TAB', 'TABLE', 'STABLE',
         'Q1', 'Q2', 'Q10', 'Z', 'ZZ', 'POOL', 'LOP', 'AAA', 'A1A', 'OO',
         'A.B', 'AXB', 'A+1', 'X-1', 'A*', '(Q', 'Q$', '0', '007', 'LOOP.']


def synth(rng):
    tab = {}
    n = rng.choice([0, 1, 2, 5, 12, len(NAMES)])
    tags = rng.sample(NAMES, n)
    if rng.random() < 0.25:
        tags = [M.wild(rng, 8) for _ in tags]
    for tag in tags:
        tab[tag] = {}
        for seg in rng.sample(['p', 'q', 'src/r', 'A', M.wild(rng, 8)],
                              rng.choice([1, 1, 2, 3])):
            tab[tag][seg] = {}
            for sub in rng.sample(['0', '1', '2', '10', 'X', '',
                                   str(rng.randrange(100, 1000))],
                                  rng.choice([1, 1, 2, 3])):
                kinds = rng.choice([['simple'], ['complex'], ['complex'],
                                    ['simple', 'complex']])
                tab[tag][seg][sub] = {k: rng.randrange(10 ** 6)
                                      for k in kinds}
    return tab


def aim(rng):
    """One tag whose only simple definition is somewhere specific."""
    tab = synth(rng)
    tag = 'AIM'
    segs = ['p', 'q', 'r'][:rng.randint(1, 3)]
    subs = ['1', '2', '3'][:rng.randint(1, 3)]
    at = (rng.choice(segs), rng.choice(subs))
    none = rng.random() < 0.3
    tab[tag] = {sg: {sb: ({'simple': 1} if rng.random() < 0.5 else
                          {'simple': 1, 'complex': 2})
                     if (sg, sb) == at and not none else {'complex': 3}
                     for sb in subs} for sg in segs}
    return tab


class C16(Check):
    id = 'C16'
    rule = ('synthetic tables (0..27 symbols over up to 3 segments x 3 '
            'subsegments x kinds, including tags whose only simple '
            'definition sits in one particular place) and tables built from '
            'random sources, each asked for its absolute symbols, its '
            'complex-only symbols and exact, prefix, suffix and fuzzy '
            'searches; answers compared with set comprehensions, fuzzy ones '
            'with the scores of the scorer itself, and the table with a '
            'snapshot. Distinct = (table, query) pairs.')
    assumptions = ['fuzzywuzzy\'s scorer is trusted; ties may come in any '
                   'order']
    require = {'tables': 600, 'queries': 10000, 'exact_hits': 500,
               'exact_misses': 500, 'kind_misses': 200, 'fuzzy': 1000,
               'complex_only': 200, 'built_tables': 100, 'requeried': 500}

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(120000 if ctx.thorough else 3600)):
            k = rng.random()
            q = rng.sample(NAMES, 4) + ['AIM', 'NOSUCH', rng.choice(
                ['L', 'AL', '1', '', 'A1', 'BETAX', 'TA']), rng.choice(
                    ['.', 'A.', 'A+', '*', '$', '(', 'alpha', 'loop', 'A ',
                     ' A', '0', '[A', 'P.', '|'])]
            if k < 0.75:
                t = synth(rng) if k < 0.45 else aim(rng)
                for tag in rng.sample(sorted(t), min(2, len(t))):
                    i = rng.randint(0, len(tag))
                    q.append(rng.choice([tag, tag[:i], tag[i:]]))
                    if rng.random() < 0.1:
                        q.append(rng.choice([
                            'B,', 'F,', 'S,', 'Z,', 'L,', 'B, ', ',', ' ',
                            '"', '$', '#', '*']) + tag)
                    elif rng.random() < 0.1:
                        q.append(tag + rng.choice([
                            ',', ' ', '*', '.', ',B', ':', '\n', '\t', '+1',
                            '-1', '"']))
                yield {'table': t, 'names': q}
            else:
                yield {'build': build_case(rng),
                       'names': rng.sample(M.LABELS, 5) + ['L', 'OP']}
        for i in ctx.mine(range(6)):
            n = [300, 1100, 3000][i % 3]
            yield {'table': {
                'SKAMB'[k % 5] + '%d' % (k * 7919 % 10007): {'seg%d' % (k % 70): {
                    str(k % 13): {'complex' if k % 5 == i else 'simple': k}}}
                for k in range(n)}, 'names': ['S1', 'K77', 'A1234', 'S', '7', 'NOSUCH']}
        yield {'table': {'A': {'s%d' % k: {str(j): {
            'simple' if (k, j) == (149, 39) else 'complex': 1}
            for j in range(40)} for k in range(150)}}, 'names': ['A', 'B']}

    def run(self, ctx, case):
        if 'build' in case:
            b = case['build']
            with ctx.tmpdir() as d:
                M.write_files(d, b['files'], b['nonl'])
                os.chdir(d)
                tab = {}
                for top in b['tops']:
                    with captured():
                        r = call(ST.buildSymbolTable, top, tab)
                    tab, _ = expect_ok(r, 'build %s', top)
            ctx.ev('built_tables')
        else:
            tab = {t: {s: {u: {k: {'file': s + '.argus', 'line': v,
                                   'lognum': None, 'tagtype': ' ',
                                   'card': None} for k, v in kk.items()}
                           for u, kk in ss.items()} for s, ss in tt.items()}
                   for t, tt in case['table'].items()}
        self.queries(ctx, case, tab)
        # the same table object after more was added, removed and redefined
        rng = random.Random(len(tab) * 1000 + len(case['names'][0]))
        for _ in range(2):
            for tag in rng.sample(sorted(tab), min(len(tab), 3)):
                k = rng.random()
                if k < 0.3:
                    del tab[tag]
                    continue
                seg = rng.choice(sorted(tab[tag]))
                sub = rng.choice(sorted(tab[tag][seg]))
                kinds = tab[tag][seg][sub]
                old = rng.choice(sorted(kinds))
                e = kinds.pop(old)
                kinds[{'simple': 'complex', 'complex': 'simple'}[old]] = e
            tag = rng.choice(NAMES)
            if tag not in tab and rng.random() < 0.7:
                tab[tag] = {'new': {'1': {rng.choice(['simple', 'complex']): {
                    'file': 'new.argus', 'line': 1, 'lognum': None,
                    'tagtype': ' ', 'card': None}}}}
            self.queries(ctx, dict(case, names=[tag] + case['names'][:2]),
                         tab)
            ctx.ev('requeried')

    def queries(self, ctx, case, tab):
        ctx.ev('tables')
        flat = [(t, s, u, k) for t in tab for s in tab[t]
                for u in tab[t][s] for k in tab[t][s][u]]
        order0 = repr_order(tab)

        def kinds(t):
            return {x[3] for x in flat if x[0] == t}
        absolute = sorted(t for t in tab if 'simple' in kinds(t))
        conly = sorted(t for t in tab if kinds(t) == {'complex'})

        def ask(what, f, *a, **k):
            with captured() as (out, err):
                r = call(f, *a, **k)
            v = expect_ok(r, what)
            expect(repr_order(tab) == order0, '%s modified the table', what)
            ctx.ev('queries')
            ctx.state(order0, what)
            return v, err.getvalue()

        v, _ = ask('getAbsoluteSymbols', ST.getAbsoluteSymbols, tab)
        expect(list(v) == absolute, 'absolute symbols %r, the table has %r',
               v, absolute)
        scribble(v)
        v, err = ask('checkSymbolTable', ST.checkSymbolTable, tab,
                     *([[], [True], [True, False], [False]][len(tab) % 4]))
        expect(list(v) == [], 'complex-only symbols %r returned unasked', v)
        expect('ERROR' not in err, 'complex-only check reported unasked: %s',
               err)
        for kw in ({}, {'verbose': True}):
            if len(case['names'][0]) % 2:
                v, err = ask('checkSymbolTable(%r, True)' % bool(kw),
                             ST.checkSymbolTable, tab, bool(kw), True)
            else:
                v, err = ask('checkSymbolTable(complexOnlyError) %r' % (kw,),
                             ST.checkSymbolTable, tab, complexOnlyError=True,
                             **kw)
            expect(list(v) == conly, 'complex-only symbols %r, the table has '
                   '%r', v, conly)
            scribble(v)
            said = re.findall(r'symbol "([^"]*)"', err)
            expect(sorted(said) == conly, 'complex-only symbols reported on '
                   'stderr %r, the table has %r', said, conly)
            ctx.ev('complex_only', len(conly))
        for name in case['names']:
            for kind in (None, 'simple', 'complex'):
                if kind is None:
                    v, err = ask('find %r' % name, ST.findSymbolDef, tab,
                                 name, **rng_kw(name))
                else:
                    v, err = ask('find %r %s' % (name, kind),
                                 ST.findSymbolDef, tab, name, kind) \
                        if len(name) % 2 else ask(
                            'find %r %s' % (name, kind), ST.findSymbolDef,
                            tab, name, symtype=kind)
                hit = name in tab and (kind is None or kind in kinds(name))
                if hit:
                    expect(v == tab[name], 'find %r %s returned %s, '
                           'definitions are %s', name, kind, short(v),
                           short(tab[name]))
                    expect('ERROR' not in err, 'find %r %s: error reported '
                           'for a defined symbol: %s', name, kind, err)
                    ctx.ev('exact_hits')
                else:
                    expect(v is None, 'find %r %s returned %s, there is no '
                           'such definition', name, kind, short(v))
                    expect('ERROR' in err and name in err, 'find %r %s: no '
                           'error reported', name, kind)
                    ctx.ev('exact_misses')
                    ctx.ev('kind_misses', 1 if name in tab else 0)
            pos = (len(name) + len(tab)) % 2
            v, _ = ask('begin %r' % name, ST.findSymbolDef, tab, name, None,
                       True) if pos else \
                ask('begin %r' % name, ST.findSymbolDef, tab, name,
                    begin=True)
            want = sorted(t for t in tab if t[:len(name)] == name)
            expect(list(v) == want, 'symbols beginning with %r: %r, should '
                   'be %r', name, v, want)
            scribble(v)
            v, _ = ask('end %r' % name, ST.findSymbolDef, tab, name, None,
                       False, True) if pos else \
                ask('end %r' % name, ST.findSymbolDef, tab, name, end=True)
            want = sorted(t for t in tab
                          if name == '' or t[-len(name):] == name)
            expect(list(v) == want, 'symbols ending with %r: %r, should '
                   'be %r', name, v, want)
            scribble(v)
            if not any(ch.isalnum() for ch in name):
                continue        # nothing the scorer looks at
            v, _ = ask('fuzzy %r' % name, ST.findSymbolDef, tab, name, None,
                       False, False, True) if pos else \
                ask('fuzzy %r' % name, ST.findSymbolDef, tab, name,
                    fuzzy=True)
            check_fuzzy(name, list(v), absolute)
            scribble(v)
            ctx.ev('fuzzy')
        ctx.sample({'symbols': len(tab), 'absolute': len(absolute),
                    'complex_only': conly[:4], 'asked': case['names']})


def rng_kw(name):
    return {'verbose': True} if len(name) % 3 == 2 else {}


def check_fuzzy(name, got, absolute):
    expect(len(got) == min(10, len(absolute)), 'fuzzy %r returned %d of %d '
           'absolute symbols', name, len(got), len(absolute))
    expect(len(set(got)) == len(got), 'fuzzy %r: repeated answers %r', name,
           got)
    for g in got:
        expect(g in absolute, 'fuzzy %r returned %r, not an absolute symbol',
               name, g)
    if not got:
        return
    score = dict((m[0], m[1]) for m in
                 process.extract(name, absolute, limit=len(absolute)))
    ss = [score[g] for g in got]
    expect(ss == sorted(ss, reverse=True), 'fuzzy %r: %r are not in order of '
           'score %r', name, got, ss)
    best = sorted(score.values(), reverse=True)[:10]
    expect(ss == best, 'fuzzy %r: scores %r of %r, the best are %r', name,
           ss, got, best)


def repr_order(tab):
    shape = [(t, [(s, list(tab[t][s])) for s in tab[t]]) for t in tab]
    return shape, [(t, s, u, k, id(tab[t][s][u][k]),
                    sorted((a, id(b) if a == 'card' else b)
                           for a, b in tab[t][s][u][k].items()))
                   for t in tab for s in tab[t] for u in tab[t][s]
                   for k in tab[t][s][u]]


class C17(Check):
    id = 'C17'
    shrink = ('ops',)
    rule = ('random histories of adds (with and without values, zero values, '
            'repeated names), updates, lookups, prints, prunes and resolves on '
            'one or two registries, each step compared with a reference '
            'registry: entries, undefined list and counts. Distinct = '
            'registry states reached.')
    require = {'steps': 20000, 'duplicate_adds': 1000, 'pruned': 500,
               'resolves': 500, 'updates': 1000, 'zero_values': 200,
               'lookups': 5000}

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(400000 if ctx.thorough else 30000)):
            ops = []
            names = rng.sample(NAMES, rng.choice([1, 2, 4, 8, 20]))
            if rng.random() < 0.3:
                names = [M.wild(rng, 9) for _ in names]
            reg = rng.choice([1, 1, 2])
            for _ in range(steps(rng, [3, 10, 40, 80], 800) if i else
                           10000):
                r = rng.randrange(reg)
                k = rng.random()
                n = rng.choice(names)
                t = rng.choice([None, 'absolute', 'complex'])
                v = rng.choice([0, 1, 5, 2047, 'A+1', 0, '', rng.randrange(
                    10 ** 6), -1, -rng.randrange(10 ** 6), 2 ** 48, 1.5,
                    M.wild(rng, 9)])
                if k < 0.4:
                    seg = rng.choice([None, 'seg', 'S2', '', M.wild(rng, 9)])
                    ops.append([r, 'add', n, rng.choice([
                        'f%d.argus' % rng.randrange(9), M.wild(rng, 20)]),
                                rng.choice([0, rng.randrange(1, 999),
                                            rng.randrange(10 ** 6)]),
                                v if rng.random() < 0.5 else None, t, seg,
                                rng.choice([None, '1', '10', '0', '',
                                            M.wild(rng, 4)])])
                elif k < 0.6:
                    ops.append([r, 'update', n, v if rng.random() < 0.96
                                else None, t])
                elif k < 0.7:
                    ops.append([r, 'prune'])
                elif k < 0.8:
                    ops.append([r, 'resolve', rng.choice([None, 0, 1, 2,
                                                          50])])
                elif k < 0.88:
                    ops.append([r, 'ref', n, rng.randrange(1000)])
                elif k < 0.9:
                    ops.append([r, rng.choice(['table', 'undefs']),
                                rng.random() < 0.5])
                else:
                    ops.append([r, 'lookup', rng.choice(names + ['NOPE'])])
            yield {'regs': reg, 'ops': tighten(rng, ops),
                   'quiet': rng.random() < 0.3}
        for i in ctx.mine(range(8)):
            names = ['N%d' % (k * 7919 % 10007)
                     for k in range(400 if i < 4 else 5000)]
            ops = [[0, 'add', n, 'f', k + 1, None if (k + i) % 3 else k, t,
                    's', '1'] for k, n in enumerate(names)
                   for t in ['absolute']]
            ops += [[0, 'update', n, k, ['absolute', 'complex'][k % 2]]
                    for k, n in enumerate(names) if k % 7 < 5]
            ops += [[0, ['prune', 'resolve'][i % 2]] + [None] * (i % 2)]
            ops += [[0, 'update', n, k, 'absolute']
                    for k, n in enumerate(names) if k % 7 >= 5]
            ops += [[0, 'resolve', 10], [0, 'lookup', names[-1]]]
            yield {'regs': 1, 'ops': ops, 'quiet': i >= 4, 'every': 1499}

    def run(self, ctx, case):
        regs = [ST.SymbolTable() for _ in range(case['regs'])]
        mod = [{'sym': {}, 'undef': []} for _ in regs]
        for step, op in enumerate(case['ops']):
            st, m = regs[op[0]], mod[op[0]]
            what = 'step %d %r' % (step, op[1:])
            kind = op[1]
            if kind == 'update' and op[3] is None and op[2] in m['undef']:
                # whether it has received a value then is anybody's guess
                continue
            with captured() as (out, err):
                if kind == 'add':
                    _, _, n, f, ln, v, t, seg, sub = op
                    if step % 3 == 0:
                        r = call(st.add, n, f, ln, v, t, seg, sub)
                    else:
                        r = call(st.add, n, f, ln, value=v, symtype=t,
                                 segment=seg, subsegment=sub)
                elif kind == 'update':
                    r = call(st.update, op[2], op[3], op[4]) if step % 2 \
                        else call(st.update, op[2], symtype=op[4],
                                  value=op[3])
                elif kind == 'prune':
                    r = call(st.pruneUndefines)
                elif kind == 'resolve':
                    r = call(st.resolve) if op[2] is None else \
                        call(st.resolve, op[2])
                elif kind in ('table', 'undefs'):
                    f = st.printTable if kind == 'table' else st.printUndefs
                    other = io.StringIO()
                    r = call(f, other) if op[2] else call(f)
                elif kind == 'ref':
                    e = st.lookup(op[2])
                    r = call(e.addReference, op[3]) if e is not None else \
                        call(lambda: None)
                else:
                    r = call(st.lookup, op[2])
            expect_ok(r, what)
            text = out.getvalue() + err.getvalue()
            if kind == 'add':
                if n in m['sym']:
                    expect('ERROR' in text and n in text,
                           '%s: adding a known name reported no error', what)
                    ctx.ev('duplicate_adds')
                else:
                    expect('ERROR' not in text, '%s: %s', what, text)
                    m['sym'][n] = {'f': f, 'l': ln, 'seg': seg, 'sub': sub,
                                   'abs': v if t == 'absolute' else None,
                                   'cpx': None if t == 'absolute' else v,
                                   'refs': []}
                    if v is None:
                        m['undef'].append(n)
            elif kind == 'update':
                e = m['sym'].get(op[2])
                if e is None:
                    expect('ERROR' in text, '%s: updating an unknown name '
                           'reported no error', what)
                else:
                    e['abs' if op[4] == 'absolute' else 'cpx'] = op[3]
                    e['last'] = op[3]
                    ctx.ev('updates')
                    ctx.ev('zero_values', 1 if op[3] == 0 else 0)
            elif kind in ('prune', 'resolve'):
                ctx.ev('resolves', 1 if kind == 'resolve' else 0)
                if kind == 'prune' or op[2] != 0:
                    n0 = len(m['undef'])
                    m['undef'] = [x for x in m['undef']
                                  if not self.valued(m['sym'][x])]
                    ctx.ev('pruned', n0 - len(m['undef']))
            elif kind == 'ref':
                if op[2] in m['sym']:
                    m['sym'][op[2]]['refs'].append(op[3])
            elif kind in ('table', 'undefs'):
                ctx.ev('prints')
                if op[2]:
                    expect(not text, '%s: printed to the standard output: %r',
                           what, text)
            ctx.ev('steps')
            if kind == 'lookup':
                self.found(r.val, m['sym'].get(op[2]), op[2], what)
            if case.get('quiet') and step < len(case['ops']) - 1 and \
                    (step + 1) % case.get('every', 10 ** 9):
                continue
            for i, (st2, m2) in enumerate(zip(regs, mod)):
                self.compare(ctx, st2, m2, '%s: registry %d' % (what, i))
        ctx.sample({'ops': case['ops'][:6]})

    @staticmethod
    def valued(e):
        return e['abs'] is not None or e['cpx'] is not None

    @staticmethod
    def found(e, x, n, what):
        if x is None:
            expect(e is None, '%s: %r is found but was never added', what, n)
            return
        want = x['abs'] if x['abs'] is not None else x['cpx']
        expect(e is not None and e.name == n and e.file == x['f'] and
               e.line == x['l'] and e.value == want,
               '%s: found %r, should be %r', what,
               e and (e.name, e.file, e.line, e.value),
               (n, x['f'], x['l'], want))

    def compare(self, ctx, st, m, what):
        expect(list(st.undefines) == m['undef'], '%s: undefined %r, should '
               'be %r', what, st.undefines, m['undef'])
        expect_val(call(st.getNumUndefs), len(m['undef']),
                   '%s: undefined count', what)
        expect_val(call(st.getNumSymbols), len(m['sym']),
                   '%s: symbol count', what)
        expect(sorted(st.symbols) == sorted(m['sym']), '%s: symbols %r, '
               'should be %r', what, sorted(st.symbols), sorted(m['sym']))
        for n, x in m['sym'].items():
            e = st.lookup(n)
            expect(e is not None, '%s: %r is not found', what, n)
            ctx.ev('lookups')
            expect(e.name == n and e.file == x['f'] and e.line == x['l'] and
                   e.segment == x['seg'] and e.subsegment == x['sub'],
                   '%s: %r is %r', what, n, (e.name, e.file, e.line,
                                             e.segment, e.subsegment))
            expect(list(e.references) == x['refs'], '%s: %r has references '
                   '%r, should have %r', what, n, e.references, x['refs'])
            a, c = x['abs'], x['cpx']
            expect(e.isAbsolute() == (a is not None) and
                   e.isComplex() == (c is not None) and
                   e.isValid() == (a is not None or c is not None) and
                   e.isMultiple() == (a is not None and c is not None),
                   '%s: %r with absolute %r and complex %r says '
                   'absolute=%r complex=%r valid=%r multiple=%r', what, n,
                   a, c, e.isAbsolute(), e.isComplex(), e.isValid(),
                   e.isMultiple())
            v = e.value
            want = a if a is not None else c
            expect(v == want and type(v) is type(want), '%s: value of %r '
                   'is %r, should be %r', what, n, v, want)
        for n in ('NOPE', 'nope', 'A '):
            expect(n in m['sym'] or st.lookup(n) is None,
                   '%s: %r is found but was never added', what, n)
        ctx.state(sorted((n, x['abs'], x['cpx']) for n, x in
                         m['sym'].items()), m['undef'])
