"""C18-C21: the command line tools."""
import ast
import os
import re

from . import gold
from . import model as M
from . import tools as T
from .core import Check, expect, short
from .m_symbols import check_fuzzy, count_errors


def run(ctx, case, tool, argv, d):
    cwd = case.get('cwd', d)
    env = case.get('env', {})
    if env:
        ctx.ev('runs in other environments')
    if case.get('process'):
        ctx.ev('process_runs')
        r = T.run_process(tool, argv, cwd, env)
    else:
        old = dict(os.environ)
        os.environ.update(env)
        try:
            r = T.run_inproc(tool, argv, cwd, d)
        finally:
            os.environ.clear()
            os.environ.update(old)
        expect(not r.mon.escapes, '%s: operations outside its files: %r',
               r.what, r.mon.escapes[:3])
    ctx.ev('runs')
    ctx.ev('runs ' + tool)
    return r


def ok(r):
    expect(r.code == 0, '%s: expected to succeed, exit %s: %s', r.what,
           r.code, short(r.err[-400:], 400))


def instr_card(rng):
    """Cards concentrating on operations."""
    if rng.random() < 0.4:
        return M.symbol_card(rng)
    return M.mkline(column1=rng.choice([' '] * 8 + ['P', 'R', 'L', 'A']),
                    lognum=rng.choice(['', '0010']),
                    column8=rng.choice([' '] * 6 + ['*', '-']),
                    label=rng.choice(['', 'X', 'LOOP']),
                    operation=few_op(rng), operand1=M.operand(rng),
                    operand2=M.operand(rng),
                    misc=rng.choice(['', '', '123']),
                    remarks=rng.choice(['', 'TEXT']))


def assign_card(rng):
    """Cards whose labels are mostly complex definitions."""
    if rng.random() < 0.4:
        return M.symbol_card(rng)
    return M.mkline(label=rng.choice(M.LABELS + ['UNIQ%d' % i
                                                 for i in range(20)]),
                    operation=rng.choice(['ASSIGN'] * 5 + ['BA', 'OCT']),
                    column8=rng.choice([' '] * 8 + ['*']))


def few_op(rng):
    if rng.random() < 0.5:
        return M.operation(rng)
    base = rng.choice(['BA', 'WA', 'TX', 'TS', 'NA', 'BAX', 'HLT', 'BB'])
    return (base + rng.choice(['', '', '', ',M', ', M', ' ,M', ',MM', ',',
                               ',N,M', ' , M', ',m'])) \
        if rng.random() < 0.8 else rng.choice(['B A', 'T X', 'W A,M', 'B A,'])


def tool_case(rng, card=None, maxlines=None, tops=None):
    files, tops = M.file_tree(rng, maxlines or rng.choice([3, 12, 30]),
                              card or instr_card, tops)
    for name in files:
        files[name] = [' ' + x[1:] if x.startswith('$') and not (
            x[1:].split() and x[1:].split()[0] in files) else x
            for x in files[name]]
    k = rng.random()
    if k < 0.15:
        tops = tops + [rng.choice(tops)]
    elif k < 0.3:
        tops = tops[::-1]
    env = {}
    if rng.random() < 0.1:
        env = {n: rng.choice(v) for n, v in ENV.items() if rng.random() < 0.5}
    return {'files': files, 'tops': tops, 'env': env,
            'nonl': [n for n in files if rng.random() < 0.2],
            'style': rng.choice(M.STYLES), 'spell': rng.choice(SPELL)}


# what users have in their environments, of no concern to the tools
ENV = {'COLUMNS': ['10', '40', '300'], 'LINES': ['5', '24'],
       'TERM': ['dumb', 'xterm'], 'LANG': ['C', 'de_DE'], 'TZ': ['UTC+9'],
       'VERBOSE': ['1'], 'DEBUG': ['1'], 'QUIET': ['1'], 'NO_COLOR': ['1'],
       'CI': ['true'], 'USER': ['x'], 'EDITOR': ['vi'], 'PAGER': ['more']}
SPELL = [0] * 6 + [1, 2, 3, 4]
LONG = {'-a': '--all', '-c': '--count', '-i': '--invalid', '-s': '--sort',
        '-p': '--print-opcodes', '-u': '--unused', '-v': '--verbose',
        '-d': '--debug', '-D': '--details', '-b': '--begin', '-e': '--end',
        '-f': '--fuzzy', '-x': '--exact'}


def command(case, opts, args):
    """Options before, after or among the arguments, short, long or joined."""
    k = case.get('spell', 0)
    opts = list(opts)
    if k == 1 and case['tool'] != 'check-symbols':
        opts = [LONG.get(o, o) for o in opts]
    elif k == 2 and len(opts) > 1 and all(len(o) == 2 for o in opts):
        opts = ['-' + ''.join(o[1] for o in opts)]
    elif k == 3:
        return args + opts
    elif k == 4:
        return args[:1] + opts + args[1:]
    return opts + args


def placed(d, case):
    """The case with its files written and its names as the tool sees
    them."""
    files, tops, nonl, cwd = M.lay_out(d, case['files'], case['tops'],
                                       case['nonl'], case.get('style'))
    if case.get('twice') and case.get('style') == 'plain':
        # a source once more, by another name
        for t in tops[:1]:
            x = './' + t if case['twice'] == 'dot' else \
                os.path.join(os.path.realpath(cwd), t)
            files, tops = dict(files, **{x: files[t]}), tops + [x]
            if t in nonl:
                nonl = nonl + [x]
    return dict(case, files=files, tops=tops, nonl=nonl, cwd=cwd)


def cards_of(case):
    out = []
    for t in case['tops']:
        out.extend(M.expand(case['files'], t))
    return out


ERR = re.compile(r'^\*\*\* ERROR: Invalid instruction "(.*)":$')
LOC = re.compile(r'^File (.*?), line (\d+): (.*)$')


def parse_errors(r):
    out = []
    L = r.lines
    for i, x in enumerate(L):
        m = ERR.match(x)
        if m:
            n = LOC.match(L[i + 1]) if i + 1 < len(L) else None
            expect(n, '%s: error without its place: %r', r.what, L[i:i + 2])
            out.append((m.group(1), n.group(1), int(n.group(2)), n.group(3)))
    return out


def want_errors(cards):
    return [(c.instruction, c.filename, c.linenum, c.line) for c in cards
            if c.instruction and c.f['column8'] != '*' and
            c.instruction not in gold.ALLSET]


def total(r, want):
    m = [re.match(r'^(\d+) errors? encountered\.$', x) for x in r.lines]
    got = [int(x.group(1)) for x in m if x]
    expect(len(got) == 1 and m[-1], '%s: totals %r, one expected at the end',
           r.what, got)
    expect(got[0] == want, '%s: total of %d errors, there are %d', r.what,
           got[0], want)


def source_lines_line(r, want):
    got = [int(x.split(':')[1]) for x in r.lines
           if re.match(r'^Source lines: \d+$', x)]
    expect(got == [want], '%s: source lines %r, there are %d', r.what, got,
           want)


ROW = re.compile(r'^(\S+)\s+(\d+)\s+(\d+\.\d\d)%$')


class C18(Check):
    id = 'C18'
    rule = ('random source trees (1-4 sources, includes, ignored cards, P/R/L '
            'cards, known, masked and unknown operations with blanks and '
            'commas) run through check-instructions with every combination '
            'of its options, parse and list-instructions with plain, masked, '
            'any-mask and unknown opcodes, in-process and as real processes; '
            'outputs parsed and compared with a recount of the cards. '
            'Distinct = (sources, command line) pairs.')
    require = {'runs check-instructions': 800, 'runs parse': 250,
               'runs list-instructions': 700, 'process_runs': 20,
               'invalid_reported': 1500, 'listed_lines': 500,
               'freq_rows': 10000, 'refused_opcodes': 40,
               'printed_cards': 1000,
               'unused_checked': 200}

    def cases(self, ctx):
        rng = ctx.rng
        n = ctx.share(200000 if ctx.thorough else 9600)
        for i in range(n):
            c = tool_case(rng)
            k = rng.random()
            if k < 0.45:
                c['tool'] = 'check-instructions'
                c['opts'] = [o for o in ('-a', '-c', '-i', '-s', '-u', '-p',
                                         '-v')
                             if rng.random() < (0.2 if o in ('-p', '-v')
                                                else 0.5)]
                if rng.random() < 0.1:
                    c['opts'] = ['--count', '--sort', '--unused']
            elif k < 0.6:
                c['tool'] = 'parse'
                c['opts'] = [o for o in ('-d', '-v') if rng.random() < 0.2]
            else:
                c['tool'] = 'list-instructions'
                c['opts'] = [o for o in ('-D', '-v')
                             if rng.random() < (0.4 if o == '-D' else 0.1)]
                c['opcode'] = self.opcode(rng, c)
            c['process'] = i % 60 == 7
            if rng.random() < 0.05:
                c['twice'] = 'abs' if c['tool'] == 'parse' else \
                    rng.choice(['abs', 'dot'])
            if c['tool'] != 'parse' and rng.random() < 0.04:
                c['style'] = 'up'
            yield c
        for i in ctx.mine(range(4)):
            c = tool_case(rng)
            c['files'] = {'big.argus': [instr_card(rng) for _ in range(3000)]}
            c['tops'] = ['big.argus']
            c.update(tool=['check-instructions', 'parse'][i % 2],
                     opts=['-c', '-s', '-u'] if i % 2 == 0 else [])
            yield c
        # counts, totals and line numbers of five and six digits
        for i, (tool, n, line) in enumerate(ctx.mine([
                ('check-instructions', 70000, M.mkline(operation='BA,M')),
                ('check-instructions', 12000, M.mkline(operation='BAX')),
                ('parse', 12000, M.mkline(operation='BAX', label='x')),
                ('parse', 12000, M.mkline(operation='BA', label='LOOP')),
                ('list-instructions', 12000, M.mkline(operation='BA,M')),
                ('list-instructions', 100001, 'R'),
                ('check-instructions', 100001, 'R')])):
            end = [M.mkline(operation='BA', label='A')] * 3 + \
                [M.mkline(operation='HLT')] * 3
            yield {'files': {'big.argus': [line] * n + end},
                   'tops': ['big.argus'], 'nonl': [], 'tool': tool,
                   'opcode': 'BA',
                   'opts': {'check-instructions': ['-c', '-s'], 'parse': [],
                            'list-instructions': ['-D']}[tool]}
        # many sources
        for tool in ctx.mine(['check-instructions', 'parse',
                              'list-instructions']):
            files = {'f%03d.argus' % k: [M.mkline(
                label='A%d' % k, operation=['BA', 'BAX', 'TX,M'][k % 3])] *
                (1 + k % 2) + ['$inc1'] for k in range(150)}
            tops = sorted(files)
            files['inc1'] = ['R', M.mkline(operation='BA,M')]
            yield {'files': files, 'tops': tops, 'nonl': [], 'tool': tool,
                   'opcode': 'BA',
                   'opts': {'check-instructions': ['-c', '-u'], 'parse': [],
                            'list-instructions': ['-D']}[tool]}
        # a deck using every instruction once but one, and none at all
        for i, skip in enumerate(ctx.mine(gold.ALL[::7])):
            yield {'files': {'all.argus': [
                M.mkline(operation=m[:13]) for m in gold.ALL if m != skip]},
                'tops': ['all.argus'], 'nonl': [],
                'tool': 'check-instructions',
                'opts': [['-c', '-u'], ['-c'], ['-c', '-s'], ['-u']][i % 4]}
        for o in ctx.mine([['-c'], ['-c', '-u'], ['-c', '-s'], ['-u'], []]):
            yield {'files': {'empty.argus': ['R A', '# x']},
                   'tops': ['empty.argus'], 'nonl': [],
                   'tool': 'check-instructions', 'opts': o}

    @staticmethod
    def opcode(rng, c):
        k = rng.random()
        ops = [x.f['operation'].replace(' ', '') for x in cards_of(c)
               if x.f['operation']]
        ops = [o for o in ops if o.partition(',')[0] in gold.ALLSET]
        if k < 0.12:
            return rng.choice(['BAX', 'ba', 'NOPE', '', ',M', 'BAX,M', 'B A',
                               'HLT', 'B', 'INSTRUCTIONS'])
        base = rng.choice(ops) if ops and k < 0.8 else rng.choice(
            ['BA', 'TX', 'WA', 'TS', 'NA', rng.choice(gold.ALL)])
        j = rng.random()
        cmd = base.partition(',')[0]
        if j < 0.4:
            return cmd
        if j < 0.7:
            return base
        if j < 0.9:
            return cmd + ','
        return cmd + ',M'

    def run(self, ctx, case):
        with ctx.tmpdir() as d:
            case = placed(d, case)
            getattr(self, case['tool'].split('-')[0])(ctx, case, d)
            ctx.state(case['tool'], case['opts'], case.get('opcode'),
                      sorted(case['files'].items()), case['tops'])
            ctx.sample({k: case.get(k) for k in ('tool', 'opts', 'opcode',
                                                 'tops')})

    def check(self, ctx, case, d):
        r = run(ctx, case, 'check-instructions',
                command(case, case['opts'], case['tops']), d)
        ok(r)
        cards = cards_of(case)
        self.errors(ctx, r, cards)
        total(r, len(want_errors(cards)))
        o = ''.join(x.strip('-')[0] for x in case['opts'])
        used = {m: 0 for m in gold.ALL}
        carry = 0
        for c in cards:
            if c.instruction:
                carry += 1
                if c.f['column8'] != '*' and c.instruction in used:
                    used[c.instruction] += 1
        L = r.lines
        self.printed(ctx, r, cards, 'p' in o and 'v' not in o)
        if not o.strip('ai'):
            quiet(r, 2 * len(want_errors(cards)) + 1)
        if 'c' in o:
            source_lines_line(r, len(cards))
            expect(L.count('Instruction Frequencies:') == 1,
                   '%s: no frequency table', r.what)
            at = L.index('Instruction Frequencies:') + 1
            rows = []
            while at < len(L) and ROW.match(L[at]):
                m = ROW.match(L[at])
                rows.append((m.group(1), int(m.group(2)),
                             float(m.group(3))))
                at += 1
            expect(rows and rows[0] == ('Total', carry, 100.0),
                   '%s: table starts with %r, %d cards carry an instruction',
                   r.what, rows[:1], carry)
            rows = rows[1:]
            want = {m: n for m, n in used.items() if n or 'u' not in o}
            names = [x[0] for x in rows]
            expect(len(set(names)) == len(names), '%s: an instruction is in '
                   'the table twice', r.what)
            got = {x[0]: x[1] for x in rows}
            bad = {m: (got.get(m), want.get(m)) for m in set(got) | set(want)
                   if got.get(m) != want.get(m)}
            expect(not bad, '%s: frequencies differ (table, cards): %s',
                   r.what, short(bad))
            for m, n, p in rows:
                expect(abs(p - (100.0 * n / carry if carry else 0)) < 0.0051,
                       '%s: %s has %d of %d cards but %.2f%%', r.what, m, n,
                       carry, p)
            if 's' in o:
                cnt = [x[1] for x in rows]
                expect(cnt == sorted(cnt, reverse=True),
                       '%s: table not sorted by frequency', r.what)
            else:
                expect(names == sorted(names), '%s: table not sorted by '
                       'name', r.what)
            ctx.ev('freq_rows', len(rows))
        else:
            expect('Instruction Frequencies:' not in L,
                   '%s: frequency table not asked for', r.what)
        if 'u' in o:
            expect(L.count('Unused Instructions:') == 1,
                   '%s: no unused list', r.what)
            at = L.index('Unused Instructions:') + 1
            got = []
            while at < len(L) and L[at] in used:
                got.append(L[at])
                at += 1
            expect(got == sorted(m for m, n in used.items() if n == 0),
                   '%s: unused instructions differ: %s', r.what,
                   short(sorted(set(got) ^ {m for m, n in used.items()
                                            if n == 0})))
            ctx.ev('unused_checked')

    @staticmethod
    def printed(ctx, r, cards, asked):
        """Every card carrying an instruction is printed when asked."""
        if not asked:
            return
        want = ['%s %d %s' % (c.filename, c.linenum, c.line) for c in cards
                if c.instruction]
        here = set(want)
        got = [x for x in r.lines if x in here]
        expect(got == want, '%s: %d cards printed, %d carry an instruction; '
               '%s', r.what, len(got), len(want), diff(got, want))
        ctx.ev('printed_cards', len(got))

    def errors(self, ctx, r, cards):
        got, want = parse_errors(r), want_errors(cards)
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want))
                      if a != b), min(len(got), len(want)))
            expect(False, '%s: %d errors reported, the cards have %d; '
                   'number %d is %r, should be %r', r.what, len(got),
                   len(want), i, got[i:i + 1], want[i:i + 1])
        ctx.ev('invalid_reported', len(got))

    def parse(self, ctx, case, d):
        r = run(ctx, case, 'parse',
                command(case, case['opts'], case['tops']), d)
        ok(r)
        cards = cards_of(case)
        self.errors(ctx, r, cards)
        ms = M.MSym()
        nsym = 0
        for t in case['tops']:
            nsym += len(ms.build(case['files'], t))
        building(r, case['tops'], ms)
        self.printed(ctx, r, cards, case['opts'] == ['-d'])
        source_lines_line(r, len(cards))
        total(r, len(want_errors(cards)) + nsym)
        if not case['opts']:
            quiet(r, 2 * len(want_errors(cards)) + 2)
        ctx.ev('symbol_errors', nsym)

    def list(self, ctx, case, d):
        op = case['opcode']
        r = run(ctx, case, 'list-instructions',
                command(case, case['opts'], [op] + case['tops']), d)
        if op.partition(',')[0] not in gold.ALLSET:
            expect(r.code not in (0, None) and not r.out,
                   '%s: unknown opcode not refused: exit %s, output %s',
                   r.what, r.code, short(r.out))
            ctx.ev('refused_opcodes')
            return
        ok(r)
        want = []
        for c in cards_of(case):
            o = (c.f['operation'] or '').replace(' ', '')
            if not o or c.f['column8'] == '*':
                continue
            if ',' not in op:
                hit = o.partition(',')[0] == op
            elif op.endswith(','):
                hit = o.startswith(op)
            else:
                hit = o == op
            if hit:
                want.append(c)
        L = r.lines
        if '-v' in case['opts']:
            L = drop_chatter(L, case)
        if '-D' in case['opts']:
            wl = ['%-48s %6d %s' % (c.filename, c.linenum, c.line)
                  for c in want]
        else:
            wl = [c.line for c in want]
        expect(L == wl, '%s: %d lines listed, %d cards match; %s', r.what,
               len(L), len(wl), diff(L, wl))
        ctx.ev('listed_lines', len(L))


def quiet(r, n):
    """Nothing but the asked report is printed."""
    got = [x for x in r.lines if x.strip()]
    expect(len(got) == n, '%s: %d lines printed, the report has %d: %s',
           r.what, len(got), n, short(got))


def drop_chatter(L, case):
    """Output without what --verbose adds."""
    out = []
    it = iter(L)
    for x in it:
        if x.startswith(('Reading ', 'Skipping meta-comment')):
            continue
        if x.startswith('Skipping card with'):
            next(it, None)
            continue
        out.append(x)
    return out


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'line %d is %r, should be %r' % (i, x, y)
    if len(a) > len(b):
        return 'unexpected %r' % a[len(b)]
    if len(b) > len(a):
        return 'missing %r' % b[len(a)]
    return 'same'


BUILD = re.compile(r'^(.*): (\d+) errors? encountered building symbol table')


def building(r, tops, ms):
    got = [(m.group(1), int(m.group(2))) for m in
           map(BUILD.match, r.err.split('\n')) if m]
    want = [(t, len(e)) for t, e in zip(tops, ms.errors)]
    expect(got == want, '%s: error counts per file %r, should be %r', r.what,
           got, want)
    n = sum(len(e) for e in ms.errors)
    expect(count_errors(r.err) == n, '%s: %d symbol errors reported, there '
           'are %d', r.what, count_errors(r.err), n)


def table_dict(ms, tag):
    out = {}
    for (t, seg, sub, kind), e in ms.tab.items():
        if t == tag:
            out.setdefault(seg, {}).setdefault(sub, {})[kind] = {
                'file': e['file'], 'line': e['line'], 'lognum': e['lognum'],
                'tagtype': e['tagtype'], 'card': 'CARD'}
    return out


class C19(Check):
    id = 'C19'
    rule = ('random source trees run through listing (with and without '
            'earlier, longer .lst files), list-symbols, find-symbols (exact, '
            'prefix, suffix, fuzzy) and check-symbols, in-process and as '
            'real processes; every output line compared with the cards and '
            'the symbol-table model. Distinct = (sources, command line) '
            'pairs.')
    assumptions = ['fuzzywuzzy\'s scorer is trusted; ties may come in any '
                   'order']
    require = {'runs listing': 400, 'runs list-symbols': 300,
               'runs find-symbols': 400, 'runs check-symbols': 300,
               'listing_lines': 5000, 'symbols_listed': 1500,
               'process_runs': 20, 'complex_only': 150, 'totals': 100,
               'found': 100, 'not_found': 50, 'conflicts_refused': 20}

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(200000 if ctx.thorough else 9600)):
            k = rng.random()
            c = tool_case(rng, M.random_card_line if k < 0.15 else
                          assign_card if rng.random() < 0.4 else
                          M.symbol_card, tops=rng.choice(M.DOTTED)
                          if k < 0.3 and rng.random() < 0.15 else None)
            c['opts'] = []
            if k < 0.3:
                c['tool'] = 'listing'
                c['stale'] = rng.choice([0, 0, 0, 0, 'newer', 'older'])
                c['opts'] = ['-v'] if rng.random() < 0.1 else []
                if rng.random() < 0.05:
                    c['style'] = 'up'
            elif k < 0.5:
                c['tool'] = 'list-symbols'
            elif k < 0.8:
                c['tool'] = 'find-symbols'
                c['mode'] = rng.choice(['', '', '-x', '-b', '-e', '-f',
                                        '--begin', '--end', '--fuzzy'])
                ms = M.MSym()
                for t in c['tops']:
                    ms.build(c['files'], t)
                names = ms.tags() or ['X']
                n = rng.choice(names) if rng.random() < 0.6 else \
                    rng.choice(M.LABELS + ['NOSUCH', 'LO', 'A', '1'])
                if c['mode'] in ('-b', '--begin') and rng.random() < 0.6:
                    n = n[:rng.randint(1, len(n))]
                if c['mode'] in ('-e', '--end') and rng.random() < 0.6:
                    n = n[rng.randrange(len(n)):]
                if rng.random() < 0.1:
                    n = rng.choice([n.lower(), n.capitalize(), n + ' ',
                                    ' ' + n])
                c['name'] = n.lstrip('-') or 'X'
                if rng.random() < 0.1:
                    c['opts'] = ['-D']
                if rng.random() < 0.04:
                    c['mode'] = ''
                    c['conflict'] = c['opts'] = rng.choice([
                        ['-b', '-x'], ['-e', '-x'], ['-b', '-e'],
                        ['-f', '-b'], ['-f', '-e'], ['-x', '-f'],
                        ['--exact', '--begin'], ['--fuzzy', '--end']])
            else:
                c['tool'] = 'check-symbols'
                c['opts'] = rng.choice([[], ['-c'], ['-c'], ['--complex']])
            if c['tool'] != 'listing' and rng.random() < 0.06:
                c['opts'] = c['opts'] + ['-v']
            c['process'] = i % 60 == 11
            yield c
        many = [M.mkline(label='S%d' % (k * 7919 % 6007), operation='BA')
                for k in range(6000)]
        files = {'f%03d.argus' % k: many[k:k + 3] + [M.mkline(
            label='T%d' % k, operation='ASSIGN')] for k in range(150)}
        for c in ctx.mine([
                {'tool': 'listing', 'stale': False, 'lines': ['R'] * 100001},
                {'tool': 'listing', 'stale': True, 'lines': many},
                {'tool': 'list-symbols', 'lines': many},
                {'tool': 'list-symbols', 'lines': ['R'] * 100001 + many[:50]},
                {'tool': 'find-symbols', 'mode': '-b', 'name': 'S',
                 'lines': many},
                {'tool': 'find-symbols', 'mode': '-e', 'name': '7',
                 'lines': many},
                {'tool': 'find-symbols', 'mode': '-f', 'name': 'S123',
                 'lines': many},
                {'tool': 'check-symbols', 'lines': many + many},
                {'tool': 'check-symbols', 'lines': files},
                {'tool': 'list-symbols', 'lines': files},
                {'tool': 'listing', 'stale': False, 'lines': files},
                {'tool': 'find-symbols', 'mode': '-b', 'name': 'T',
                 'lines': files},
                {'tool': 'check-symbols', 'lines':
                 [x.replace('BA', 'ASSIGN') for x in many[:300]] +
                 many[295:400]}]):
            lines = c.pop('lines')
            files = {'big.argus': lines} if type(lines) is list else lines
            c.update(files=files, tops=sorted(files),
                     nonl=[], opts=['-c'] if c['tool'] == 'check-symbols'
                     else [])
            yield c

    def run(self, ctx, case):
        with ctx.tmpdir() as d:
            case = placed(d, case)
            getattr(self, case['tool'].replace('-', '_'))(ctx, case, d)
            ctx.state(case['tool'], case['opts'], case.get('mode'),
                      case.get('name'), sorted(case['files'].items()),
                      case['tops'])
            ctx.sample({k: case.get(k) for k in ('tool', 'opts', 'mode',
                                                 'name', 'tops')})

    def listing(self, ctx, case, d):
        outs = [os.path.splitext(t)[0] + '.lst' for t in case['tops']]
        if case['stale']:
            for o in outs:
                with open(os.path.join(case['cwd'], o), 'w') as f:
                    f.write('OLD LISTING LINE\n' * 500)
            if case['stale'] == 'newer':
                # sources older than their listings
                for n in case['files']:
                    os.utime(os.path.join(case['cwd'], n), (10 ** 9,) * 2)
        r = run(ctx, case, 'listing',
                command(case, case['opts'], case['tops']), d)
        ok(r)
        for t, o in zip(case['tops'], outs):
            p = os.path.join(case['cwd'], o)
            expect(os.path.isfile(p), '%s: no listing file %s', r.what, o)
            with open(p) as f:
                got = f.read()
            cards = M.expand(case['files'], t)
            want = ''.join('%-64s %-6d %s\n' % (c.filename, c.linenum,
                                                c.line) for c in cards)
            expect(got == want, '%s: listing %s has %d lines for %d cards; '
                   '%s', r.what, o, got.count('\n'), len(cards),
                   diff(got.split('\n'), want.split('\n')))
            ctx.ev('listing_lines', len(cards))

    @staticmethod
    def model(case):
        ms = M.MSym()
        for t in case['tops']:
            ms.build(case['files'], t)
        return ms

    def list_symbols(self, ctx, case, d):
        r = run(ctx, case, 'list-symbols',
                command(case, case['opts'], case['tops']), d)
        ok(r)
        ms = self.model(case)
        want = []
        for tag in ms.tags():
            want.append(tag)
            t = table_dict(ms, tag)
            for seg in sorted(t):
                want.append('  Segment: %s' % seg)
                for sub in sorted(t[seg]):
                    want.append('    Subsegment: %s' % sub)
                    for kind in sorted(t[seg][sub]):
                        e = ms.tab[(tag, seg, sub, kind)]
                        want.append('        %-9s %1s %-38s      %s' % (
                            '<%s>' % kind, e['tagtype'], '%s:%s' % (
                                e['file'].split('.')[0], e['line']),
                            e['mcard'].line))
            ctx.ev('symbols_listed')
        L = drop_chatter(r.lines, case) if '-v' in case['opts'] else r.lines
        expect(L == want, '%s: listing differs: %s', r.what, diff(L, want))
        n = sum(len(e) for e in ms.errors)
        got = [int(x) for x in re.findall(r'(?m)^(\d+) errors? found', r.err)]
        expect(got == ([n] if n else []), '%s: says %r errors found, there '
               'are %d', r.what, got, n)
        expect(count_errors(r.err) == n, '%s: %d symbol errors reported, '
               'there are %d', r.what, count_errors(r.err), n)
        ctx.ev('totals of symbol lists', 1 if n else 0)

    def find_symbols(self, ctx, case, d):
        mode = case['mode']
        r = run(ctx, case, 'find-symbols', command(
            case, case['opts'] + ([mode] if mode else []),
            [case['name']] + case['tops']), d)
        if case.get('conflict'):
            expect(r.code not in (0, None) and not r.out, '%s: conflicting '
                   'options not refused: exit %s, output %s', r.what, r.code,
                   short(r.out))
            ctx.ev('conflicts_refused')
            return
        ok(r)
        ms = self.model(case)
        building(r, case['tops'], ms)
        name = case['name']
        out = r.out
        if '-v' in case['opts']:
            out = '\n'.join(drop_chatter(r.lines, case))
        text = re.sub(r'<[^<>]*\bobject at 0x[0-9a-fA-F]+>', "'CARD'", out)
        try:
            got = ast.literal_eval(text.strip()) if text.strip() else None
        except (ValueError, SyntaxError):
            got = text
        if mode in ('', '-x'):
            want = table_dict(ms, name) or None
            expect(got == want, '%s: printed %s, definitions are %s', r.what,
                   short(got), short(want))
            if want is None:
                expect('ERROR: Undefined symbol' in r.err and name in r.err,
                       '%s: undefined symbol not reported', r.what)
        elif mode in ('-f', '--fuzzy'):
            absolute = sorted(t for t in ms.tags()
                              if 'simple' in M.kinds_of(ms.tab, t))
            check_fuzzy(name, list(got or []), absolute)
            want = got
        else:
            b = 'b' in mode
            want = [t for t in ms.tags()
                    if (t.startswith(name) if b else t.endswith(name))]
            expect((got or []) == want, '%s: printed %s, matching symbols '
                   'are %s', r.what, short(got), short(want))
        ctx.ev('found' if want else 'not_found')

    def check_symbols(self, ctx, case, d):
        r = run(ctx, case, 'check-symbols',
                command(case, case['opts'], case['tops']), d)
        ok(r)
        ms = self.model(case)
        building(r, case['tops'], ms)
        n = sum(len(e) for e in ms.errors)
        conly = []
        if [o for o in case['opts'] if o != '-v']:
            conly = [t for t in ms.tags()
                     if M.kinds_of(ms.tab, t) == {'complex'}]
        said = re.findall(r'^ERROR: symbol "([^"]*)" has a complex', r.err,
                          re.M)
        expect(sorted(said) == conly, '%s: complex-only symbols reported %r, '
               'should be %r', r.what, said, conly)
        absolute = sorted(t for t in ms.tags()
                          if 'simple' in M.kinds_of(ms.tab, t))
        got = re.findall(r'^  (\S+) - (Possible matches: (.*)|No matches!)$',
                         r.out + '\n' + r.err, re.M)
        expect(sorted(g[0] for g in got) == conly, '%s: matches suggested '
               'for %r, should be for %r', r.what, [g[0] for g in got],
               conly)
        for sym, txt, names in got:
            check_fuzzy(sym, names.split(), absolute)
            ctx.ev('complex_only')
        m = re.findall(r'^(\d+) errors? checking symbol table', r.err, re.M)
        expect([int(x) for x in m] == ([len(conly)] if conly else []),
               '%s: %r errors checking the table, should be %d', r.what, m,
               len(conly))
        m = re.findall(r'^Total: (\d+) errors? encountered', r.err, re.M)
        want = [n + len(conly)] if len(case['tops']) > 1 else []
        expect([int(x) for x in m] == want, '%s: totals %r, should be %r',
               r.what, m, want)
        ctx.ev('totals', len(want))


class C20(Check):
    id = 'C20'
    rule = ('genlines over random and corner (start, end, step, columns) '
            'tuples including zero-filled, descending, empty and refused '
            'ones; genpages over random files (L card or declared file name, '
            'one page and ranges, any column 8, includes and comments in the '
            'file, no final newline) and refused ones; output lines and file '
            'bytes compared with the documented layout. Distinct = command '
            'lines and files.')
    require = {'runs genlines': 800, 'runs genpages': 500, 'numbers': 20000,
               'pages': 1500, 'refused': 200, 'process_runs': 20,
               'repeated_runs': 200}

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(200000 if ctx.thorough else 9600)):
            if rng.random() < 0.6:
                c = self.genlines_case(rng)
            else:
                c = self.genpages_case(rng)
            c['process'] = i % 60 == 5
            yield c
        for a in ctx.mine([['1', '99999', '1'], ['999990', '999999'],
                           ['0', '0'], ['5', '5'], ['0001', '0010', '3'],
                           ['1', '10', '3'], ['1', '9', '10'], ['9', '1'],
                           ['--', '10', '1', '-3'], ['--', '10', '1', '-1'],
                           ['--', '1', '10', '-1'], ['1', '10', '1', '1'],
                           ['1', '10', '1', '1', '20'],
                           ['1', '999999', '100000', '2', '7']]):
            yield {'tool': 'genlines', 'argv': a}
        for x in ctx.mine(['1-1100', '1-10050', '99990-100010', '7-1106',
                           '999999-1000001']):
            yield {'tool': 'genpages', 'lines': ['L       X', '# Pages: ' + x],
                   'nonl': False, 'name': 'x.argus', 'absent': False}

    @staticmethod
    def genlines_case(rng):
        k = rng.random()
        if k < 0.1:
            return {'tool': 'genlines', 'argv': rng.choice([
                [], ['1'], ['a', '2'], ['1', 'b'], ['1234567', '12345678'],
                ['1', '1000000'], ['1', '10', 'x'], ['1', '10', '0'],
                ['1', '10', '1', 'q'], ['1', '10', '1', '2', 'z'],
                ['--nope', '1', '2'], ['0000001', '2'], ['1', '0000002']])}
        start = rng.choice([0, 1, 10, 100, 990, 9990, 99990,
                            rng.randint(0, 9999), rng.randint(0, 99999),
                            rng.randint(0, 999999)])
        step = rng.choice([1, 1, 2, 5, 10, 100, 1000, rng.randint(1, 50)])
        n = rng.choice([0, 1, 2, 5, 30, 100])
        end = min(999999, max(start, start + n * step +
                              rng.choice([0, 0, 1, -1, step - 1])))
        a = [str(start), str(end)]
        if rng.random() < 0.25:
            a[1] = a[1].zfill(rng.randint(len(a[1]), 6))
        if rng.random() < 0.25:
            a[0] = a[0].zfill(rng.randint(len(a[0]), 6))
        pre = []
        if rng.random() < 0.1 and len(str(int(a[1]))) <= len(a[0]):
            # descending
            a = [a[1], a[0]]
            step = -step
            pre = ['--']
            if len(a[0]) > max(4, len(a[1])):
                a[1] = a[1].zfill(len(a[0]))
        if step != 1 or rng.random() < 0.5:
            a.append(str(step))
            if rng.random() < 0.5:
                sc = rng.choice([1, 2, 2, 3, 8, 20, rng.randint(1, 90)])
                a.append(str(sc))
                if rng.random() < 0.6:
                    a.append(str(rng.choice([7, sc, sc + 6, sc + 10,
                                             sc + 3, rng.randint(1, 99)])))
        return {'tool': 'genlines', 'argv': pre + a}

    @staticmethod
    def genpages_case(rng):
        lines = []
        a = rng.choice([1, 5, 98, 99, 999, rng.randint(1, 2000),
                        rng.randint(1, 20000)])
        b = a + rng.choice([0, 0, 1, 2, 9, 12, 120, rng.randint(0, 60)])
        pages = '%d-%d' % (a, b) if b > a or rng.random() < 0.3 else \
            '%d' % a
        bad = rng.random()
        if bad < 0.05:
            pages = '%d-%d' % (a + 5, a)
        elif bad < 0.08:
            pages = rng.choice(['x', 'a-b', '1-', '-'])
        elif bad > 0.93:
            # numbers with leading zeros
            pages = '-'.join('0' * rng.randint(0, 3) + x
                             for x in pages.split('-'))
        fname = rng.choice(['PASS_1.argus', 'CARD_DECK', 'X.Y.argus',
                            'log_section_one.argus', 'A.argus',
                            M.rtext(rng, rng.randint(1, 40),
                                    'ABCxyz019_-+%@') + '.argus'])
        head = ['# Filename: %s' % fname, '# Pages: %s' % pages,
                '# Purpose: something', '# Page 7']
        if rng.random() < 0.2:
            head[0] = '# Filename: %s  trailing words' % fname
        if rng.random() < 0.2:
            head[1] = '# Pages: %s  of 300' % pages
        if rng.random() < 0.15:
            del head[0]
        if rng.random() < 0.15:
            head.append(rng.choice(['# Old Pages: 7-8', '# See Pages: x',
                                    '# Other Filename: Z.argus',
                                    'R       Pages: 4-5']))
        if 0.08 < bad < 0.12:
            head = [x for x in head if not x.startswith('# Pages')]
        if rng.random() < 0.2:
            rng.shuffle(head)
        body = M.source_lines(rng, rng.choice([0, 2, 10, 30]), ['inc1'],
                              M.symbol_card)
        body = [x for x in body if not x.startswith('L')]
        if rng.random() < 0.6:
            t = rng.choice(['LOG SECTION', 'X', ' PASS 1 ',
                            M.rtext(rng, rng.randint(60, 100)),
                            M.rtext(rng, rng.randint(1, 20)),
                            'CAF\xc9 \u03a9', M.rtext(rng, 9, 'A e' + M.ODD),
                            'ENDS AT COLUMN EIGHTY'.rjust(72) + 'REMARKS'])
            lcard = M.mkline(column1='L', lognum=rng.choice(['', '0001']),
                             column8=rng.choice([' ', ' ', '@', '*', '1',
                                                 rng.choice(M.WILD)]))
            lcard = (lcard.ljust(8) + t)[:120]
            body.insert(rng.randint(0, len(body)), lcard)
            if rng.random() < 0.3:
                body.append('L      @SECOND LOG SECTION')
        lines = head + body
        if rng.random() < 0.2:
            p = rng.randint(0, len(lines))
            lines = body[:p] + head + body[p:]
        return {'tool': 'genpages', 'lines': lines,
                'nonl': rng.random() < 0.2,
                'name': rng.choice(['x.argus', 'sub/y.argus', 'noext',
                                    M.wild_names(rng)[0]])
                if rng.random() < 0.94 else rng.choice(rng.choice(M.SHELL)),
                'again': rng.choice([0, 0, 0, 1, 2]),
                'absent': rng.random() < 0.04}

    def run(self, ctx, case):
        with ctx.tmpdir() as d:
            getattr(self, case['tool'])(ctx, case, d)
        ctx.state(case.get('argv'), case.get('lines'))
        ctx.sample({k: case[k] if k != 'lines' else case[k][:5]
                    for k in case})

    def genlines(self, ctx, case, d):
        argv = case['argv']
        r = run(ctx, case, 'genlines', argv, d)
        expect(os.listdir(d) == [], '%s created %r', r.what, os.listdir(d))
        a = [x for x in argv if x != '--']
        valid = len(a) >= 2 and all(re.match(r'^-?\d+$', x) for x in a) and \
            len(a[0]) <= 6 and len(a[1]) <= 6
        step = int(a[2]) if valid and len(a) > 2 else 1
        if not valid or step == 0:
            expect(r.code not in (0, None) and not r.out, '%s: invalid '
                   'arguments not refused: exit %s, output %s', r.what,
                   r.code, short(r.out))
            ctx.ev('refused')
            return
        ok(r)
        start, end = int(a[0]), int(a[1])
        startcol = int(a[3]) if len(a) > 3 else 2
        endcol = int(a[4]) if len(a) > 4 else 7
        nums = []
        n = start
        while (n <= end) if step > 0 else (n >= end):
            nums.append(n)
            n += step
        width = max(4, len(str(end)), len(a[1]))
        want = []
        for n in nums:
            x = ' ' * (startcol - 1) + str(n).rjust(width, '0')
            want.append(x.ljust(endcol + 1))
        expect(r.lines == want, '%s: %d lines, should be %d; %s', r.what,
               len(r.lines), len(want), diff(r.lines, want))
        ctx.ev('numbers', len(want))

    def genpages(self, ctx, case, d):
        name = case['name']
        p = os.path.join(d, name)
        other = os.path.join(d, 'other.argus')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not case['absent']:
            M.write_files(d, {name: case['lines']},
                          [name] if case['nonl'] else [])
        with open(other, 'w') as f:
            f.write('L      @OTHER\n# Pages: 3-4\n')
        for n in range(1 + case.get('again', 0)):
            if not self.pages_once(ctx, case, d, name):
                break
            ctx.ev('repeated_runs', n > 0)

    def pages_once(self, ctx, case, d, name):
        before = T.tree(d)
        r = run(ctx, case, 'genpages', [name], d)
        after = T.tree(d)
        want = None if case['absent'] else \
            self.pages(before[name][2].decode().split('\n'))
        if want is None:
            expect(r.code not in (0, None), '%s: invalid request not '
                   'refused', r.what)
            expect(not r.out, '%s: refused, but printed %s', r.what,
                   short(r.out))
            expect(after == before, '%s: refused, but files changed: %s',
                   r.what, short(sorted(k for k in set(before) | set(after)
                                        if before.get(k) != after.get(k))))
            ctx.ev('refused')
            return False
        ok(r)
        old = before[name][2].decode()
        got = after[name][2].decode()
        expect(got.startswith(old), '%s: the existing text was changed',
               r.what)
        expect(got[len(old):] == want, '%s: appended text differs: %s',
               r.what, diff(got[len(old):].split('\n'), want.split('\n')))
        expect({k: v for k, v in after.items() if k != name} ==
               {k: v for k, v in before.items() if k != name},
               '%s: other files changed', r.what)
        ctx.ev('pages', want.count('# Page '))
        return True

    @staticmethod
    def pages(lines):
        """The text genpages has to append, None if it has to refuse."""
        log = col8 = rng = None
        for x in lines:
            if x[:1] == 'L':
                log = x[8:80].strip()
                col8 = x[7:8].strip() or ' '
                break
        for x in lines:
            if log is None and x.startswith('# Filename: '):
                log = x.split()[2].split('.')[0].replace('_', ' ')
                col8 = '@'
            if x.startswith('# Pages: '):
                rng = x.split()[2]
        if log is None or rng is None:
            return None
        m = re.match(r'^(\d+)(?:-(\d+))?$', rng)
        if not m:
            return None
        a = int(m.group(1))
        b = int(m.group(2) or a)
        if a > b:
            return None
        out = ['', 'L      ' + col8 + log]
        for i, n in enumerate(range(a, b + 1)):
            out += ['', '# Page %d' % n,
                    '#      ' + col8 + log.ljust(72) +
                    " USER'S OWN PAGE NO." + str(i + 1).rjust(4) +
                    '        PAGE' + str(i + 1).rjust(4), '']
        return '\n'.join(out) + '\n'


INVALID = [[], ['--no-such-option'], ['-Q', 'x']]


class C21(Check):
    id = 'C21'
    rule = ('every tool with random options on random source trees (beside '
            'bystander files, stale .lst files, read-only files), healthy '
            'or with a source or included file missing, an argument invalid '
            'or a directory in place of a file; an audit hook observes every '
            'file, process and network operation and the whole directory '
            'tree is compared before and after. Distinct = (tool, sources, '
            'command line).')
    require = {'runs listing': 200, 'runs genpages': 60, 'runs parse': 60,
               'runs check-instructions': 60, 'runs check-symbols': 60,
               'runs find-symbols': 60, 'runs list-instructions': 60,
               'runs list-symbols': 60, 'runs genlines': 20,
               'aborted_runs': 300, 'healthy_runs': 500,
               'outputs_written': 150, 'files_read': 1000,
               'bystanders': 3000}

    def cases(self, ctx):
        rng = ctx.rng
        for i in range(ctx.share(120000 if ctx.thorough else 7200)):
            tool = rng.choice(
                ['listing'] * 5 + ['genpages'] * 2 +
                ['parse', 'check-instructions', 'check-symbols',
                 'find-symbols', 'list-instructions', 'list-symbols'] * 2 +
                ['genlines'])
            c = tool_case(rng, rng.choice([instr_card, M.symbol_card,
                                           M.random_card_line]),
                          tops=rng.choice(M.DOTTED) if tool == 'listing' and
                          rng.random() < 0.15 else None)
            c['tool'] = tool
            k = rng.random()
            if k < 0.25:
                c['missing'] = rng.random()
            elif k < 0.32:
                c['extra_missing'] = rng.randint(0, len(c['tops']))
            elif k < 0.37:
                c['directory'] = rng.randint(0, len(c['tops']))
            elif k < 0.42:
                c['invalid'] = rng.choice(INVALID)
            elif k < 0.48:
                c['lstdir'] = rng.randrange(len(c['tops']))
            if tool in ('listing', 'check-instructions',
                        'list-instructions') and rng.random() < 0.05:
                c['style'] = 'up'
            if tool == 'genpages' and c['style'] == 'link':
                c['style'] = 'abs'
            c['stale'] = rng.random() < 0.4
            c['opts'] = rng.random()
            c['process'] = i % 80 == 13
            c['rs'] = rng.randrange(10 ** 9)
            yield c
        # large sources: thousands of symbols, errors, cards and files
        for i in ctx.mine(range(9 * 4)):
            n, many = 3000, i // 9
            if many == 0:
                files = {'big.argus': [M.mkline(
                    label='S%d' % k, operation=['BA', 'ASSIGN'][k % 7 == 0])
                    for k in range(n)]}
            elif many == 1:
                files = {'big.argus': [M.mkline(
                    label='T%d' % (k % 9), operation=['QQ', 'BA'][k % 3 == 0])
                    for k in range(n)]}
            elif many == 2:
                files = {'f%03d.argus' % k: ['$inc1', M.mkline(
                    label='A%d' % k, operation='BA')] for k in range(150)}
                files['inc1'] = ['R', M.mkline(operation='TX,M')]
            else:
                files = {'big.argus': ['R      * X'] * 30000 +
                         ['$nosuch.inc'] * (ctx.seed % 2)}
            yield {'files': files, 'nonl': [], 'stale': bool(i % 2),
                   'tops': sorted(f for f in files if f != 'inc1'),
                   'tool': ['listing', 'genpages', 'parse', 'genlines',
                            'check-instructions', 'check-symbols',
                            'find-symbols', 'list-instructions',
                            'list-symbols'][i % 9],
                   'opts': 0, 'process': False, 'rs': 7 + i}

    @staticmethod
    def argv(case, tops):
        import random
        rng = random.Random(case['rs'])

        def pick(*o):
            return [x for x in o if rng.random() < 0.4]
        t = case['tool']
        if t == 'listing':
            return pick('-v') + tops
        if t == 'genpages':
            return tops[:1]
        if t == 'parse':
            return pick('-v', '-d') + tops
        if t == 'check-instructions':
            return pick('-a', '-c', '-i', '-p', '-s', '-u', '-v') + tops
        if t == 'check-symbols':
            return pick('-c', '-v') + tops
        if t == 'list-symbols':
            return pick('-v') + tops
        if t == 'find-symbols':
            return rng.choice([[], ['-b'], ['-e'], ['-f'], ['-x'],
                               ['-b', '-e'], ['-v']]) + ['LOOP'] + tops
        if t == 'list-instructions':
            return pick('-D', '-v') + [rng.choice(['BA', 'TX,', 'BAX'])] + \
                tops
        return rng.choice([['1', '20'], ['1', '20', '3'], ['5'],
                           ['1', '99999'], ['000001', '30000', '2']])

    def run(self, ctx, case):
        files = dict(case['files'])
        tops = list(case['tops'])
        tool = case['tool']
        if tool == 'genpages':
            files[tops[0]] = ['# Filename: ABC_D.argus'] * (
                case['rs'] % 5 > 0) + ['# Pages: 3-%d' % (
                    case['rs'] % 7)] * (case['rs'] % 11 > 0) + \
                [x for x in files[tops[0]] if not x.startswith('# Page')]
        gone = None
        if 'missing' in case:
            used = set()
            for t in tops:
                used |= reach(files, t)
            used = sorted(used)
            gone = used[int(case['missing'] * len(used))]
            files.pop(gone)
        if 'extra_missing' in case:
            tops.insert(case['extra_missing'], 'nosuch/file.argus')
        if 'directory' in case:
            tops.insert(case['directory'], 'adir')
        with ctx.tmpdir() as d:
            d = os.path.realpath(d)
            files, tops, _, cwd = M.lay_out(d, files, tops, case['nonl'],
                                            case.get('style'))

            def key(name):
                return os.path.relpath(os.path.join(cwd, name), d)
            argv = case['invalid'] if 'invalid' in case else \
                self.argv(case, tops)
            # genpages copies no include, so its file alone decides
            outs = {}
            if tool == 'listing' and 'invalid' not in case:
                for t in tops:
                    e = M.expand(files, t)
                    if e is None:
                        break
                    outs[key(os.path.splitext(t)[0] + '.lst')] = \
                        ''.join('%-64s %-6d %s\n' % (
                            c.filename, c.linenum, c.line) for c in e)
            tried = set(outs)
            os.mkdir(os.path.join(d, 'adir'))
            if 'lstdir' in case:
                # an output that cannot be written
                k = key(os.path.splitext(tops[case['lstdir']])[0] + '.lst')
                os.makedirs(os.path.join(d, k))
                outs.pop(k, None)
            by = {'adir/keep.argus': 'L      @KEEP\n', 'bystander.txt': 'x\n',
                  'prog.lst.bak': 'b\n', 'adir.argus~': 'y\n',
                  'lst': 'z\n', '.lst': 'hidden\n', 'src/prog.txt': 'p\n',
                  'v1.lst': 'v\n', 'my.lst': 'm\n'}
            for n in ('prog', 'prog1', 'a', 'src/main', 'PROG', 'X', 'inc1',
                      'common', 'one', 'adir'):
                if case['stale']:
                    by[n + '.lst'] = 'STALE %s\n' % n * 300
                by[n + '.out'] = 'keep\n'
            for n, txt in by.items():
                q = os.path.join(d, n)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if not os.path.lexists(q):
                    with open(q, 'w') as f:
                        f.write(txt)
            os.chmod(os.path.join(d, 'bystander.txt'), 0o444)
            before = T.tree(d)
            r = run(ctx, dict(case, cwd=cwd), tool, argv, d)
            after = T.tree(d)
            allowed = dict(outs)
            changed = sorted(k for k in set(before) | set(after)
                             if before.get(k) != after.get(k))
            if tool == 'genpages' and r.code == 0 and argv[:1]:
                k = key(argv[0])
                if k in changed and k in before and k in after:
                    expect((after[k][2] or b'').startswith(
                        before[k][2] or b''), '%s rewrote %s', r.what, k)
                    changed.remove(k)
                    ctx.ev('outputs_written')
            for k in changed:
                expect(k in allowed, '%s (exit %s%s): %s was %s', r.what,
                       r.code, ', %s missing' % gone if gone else '', k,
                       'created' if k not in before else
                       'deleted' if k not in after else 'modified')
                expect(after.get(k) is not None and
                       after[k][2] == allowed[k].encode(),
                       '%s (exit %s): %s is not its complete listing',
                       r.what, r.code, k)
                ctx.ev('outputs_written')
            if r.mon is not None:
                pre = set(before)
                for ev, k in sorted(r.mon.touched):
                    if k not in pre or k in tried:
                        continue
                    if tool == 'genpages' and k == key(argv[0]):
                        continue
                    expect(False, '%s: %s of %s, which is not its output',
                           r.what, ev, k)
                ctx.ev('files_read', len(r.mon.reads))
            ctx.ev('bystanders', len(by))
            ctx.ev('aborted_runs' if r.code else 'healthy_runs')
            ctx.state(tool, argv, sorted(files.items()))
            ctx.sample({'tool': tool, 'argv': argv, 'exit': r.code,
                        'missing': gone})


def reach(files, top):
    seen, todo = set(), [top]
    while todo:
        n = todo.pop()
        if n in seen or n not in files:
            continue
        seen.add(n)
        todo += [x[1:].split()[0] for x in files[n] if x.startswith('$')]
    return seen
