"""Reference models of cards, decks, symbol tables and generators of sources."""
import os

from . import gold

STARTS = [1, 2, 8, 9, 20, 33, 47, 61, 76, 81]
FNAMES = ['column1', 'lognum', 'column8', 'label', 'operation', 'operand1',
          'operand2', 'operand3', 'misc', 'remarks']
WIDTH = 120
SPAN = {n: (STARTS[i], (STARTS[i + 1] if i + 1 < len(STARTS) else WIDTH + 1)
            - STARTS[i]) for i, n in enumerate(FNAMES)}


def columns(line, start, n):
    """The n characters of a line from a 1-based column."""
    return ''.join(line[c - 1] for c in range(start, start + n)
                   if c <= len(line))


def strip_or_none(s):
    s = s.strip()
    return s if s else None


class MCard:
    """What the documentation says an ARGUS card line means."""

    def __init__(self, line, filename=None, linenum=0):
        self.line, self.filename, self.linenum = line, filename, linenum
        self.raw = [columns(line, *SPAN[n]) for n in FNAMES]
        self.f = {n: strip_or_none(r) for n, r in zip(FNAMES, self.raw)}
        if self.f['column1'] in ('P', 'R', 'L'):
            for n in ('label', 'operation', 'operand1', 'operand2',
                      'operand3', 'misc'):
                self.f[n] = None
            self.f['remarks'] = line[8:].strip()
        op = self.f['operation']
        self.instruction = op if op is None else op.partition(',')[0].strip()


def expand(files, name, missing=None):
    """Cards of a file with includes expanded; None if a file is missing."""
    if name not in files:
        return None
    out = []
    for i, line in enumerate(files[name]):
        if line.startswith('#'):
            continue
        if line.startswith('$'):
            sub = expand(files, line[1:].split()[0])
            if sub is None:
                return None
            out.extend(sub)
        else:
            out.append(MCard(line, name, i + 1))
    return out


def log_section(cards):
    for c in cards:
        if c.f['column1'] == 'L':
            return c.line[8:80].strip(), c.f['column8']
    return None, None


def write_files(d, files, nonl=()):
    for name, lines in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        text = '\n'.join(lines)
        if lines and name not in nonl:
            text += '\n'
        elif lines and lines[-1] == '':
            text += '\n'
        with open(p, 'w') as f:
            f.write(text)


STYLES = ['plain'] * 12 + ['abs', 'link', 'crlf']


def lay_out(d, files, tops, nonl=(), style='plain'):
    """Writes the files below d in one of several ways of naming them; returns
    the names as the program is given them: (files, tops, nonl, directory to
    run in).

    abs: every name (also of the includes) is absolute; up: every name starts
    in the parent of the working directory; dot, round: by roundabout paths;
    link: every file is a symbolic
    link to one of an unrelated name in another directory; crlf: the lines of
    every file end in carriage return and line feed."""
    cwd = d
    pre = {'abs': os.path.realpath(d) + '/', 'up': '../', 'dot': './',
           'round': '../w0rk//../'}.get(style, '')
    if style in ('up', 'round'):
        cwd = os.path.join(d, 'w0rk')
        os.makedirs(cwd, exist_ok=True)
    if pre:
        def inc(x):
            if not x.startswith('$'):
                return x
            rest = x[1:].lstrip()
            return x[:len(x) - len(rest)] + pre + rest
        files = {pre + n: [inc(x) for x in ls] for n, ls in files.items()}
        tops = [pre + t for t in tops]
        nonl = [pre + n for n in nonl]
    write_files(cwd, files, nonl)
    if style == 'crlf':
        for n in files:
            p = os.path.join(cwd, n)
            with open(p, 'rb') as f:
                text = f.read()
            with open(p, 'wb') as f:
                f.write(text.replace(b'\n', b'\r\n'))
    if style == 'link':
        os.makedirs(os.path.join(d, 'st0re'))
        for i, n in enumerate(sorted(files)):
            q = os.path.join(d, 'st0re', 'kept%d.txt' % i)
            p = os.path.join(d, n)
            os.rename(p, q)
            os.symlink(q if i % 2 else os.path.relpath(q, os.path.dirname(p)),
                       p)
    return files, tops, nonl, cwd


class MSym:
    """Model of building a symbol table from sources."""

    def __init__(self):
        self.tab = {}       # (tag, seg, subseg, kind) -> definition
        self.errors = []    # per file: list of (symbol text, reason)
        self.repeats = 0    # equivalent EQUALS seen again

    def build(self, files, filename):
        cards = expand(files, filename)
        seg = filename.split('.')[0]
        sub = '1'
        errs = []
        for c in cards:
            if c.f['column8'] == '*':
                continue
            op = c.f['operation']
            if op is not None and op.startswith('SETLOC'):
                sub = op.split(',')[1].strip() if ',' in op else '0'
            if c.f['label'] is None:
                continue
            lab = c.f['label'].replace(' ', '')
            tag, ttype = lab, ' '
            why = None
            if lab != lab.upper():
                why = 'case'
            elif lab.count(',') > 1:
                why = 'commas'
            elif ',' in lab:
                ttype, tag = lab.split(',')
                if ttype not in ('B', 'F', 'S', 'Z'):
                    why = 'prefix'
            if why is None and op is None:
                why = 'operation'
            if why:
                errs.append((lab, why))
                continue
            kind = 'complex' if op == 'ASSIGN' else 'simple'
            key = (tag, seg, sub, kind)
            old = self.tab.get(key)
            if old is None:
                self.tab[key] = {'file': c.filename, 'line': c.linenum,
                                 'lognum': c.f['lognum'], 'tagtype': ttype,
                                 'mcard': c}
                continue
            oc = old['mcard']
            if op == 'EQUALS' and oc.f['operation'] == 'EQUALS' and \
                    all(c.f[x] == oc.f[x] for x in
                        ('operand1', 'operand2', 'operand3')):
                self.repeats += 1
                continue
            errs.append((tag, 'multiple'))
        self.errors.append(errs)
        return errs

    def tags(self):
        return sorted({k[0] for k in self.tab})


def kinds_of(tab, tag):
    return {k[3] for k in tab if k[0] == tag}


# ---------------------------------------------------------------------------
# Generators
# ---------------------------------------------------------------------------

ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
# characters that are not blank but easily lost, changed or counted otherwise
ODD = '\0\x01\x1b\x7f\xad\u0301\u200b\ufb01\ufeff\u2460\U0001f600'
TEXT = ALNUM + ALNUM + '+-*/.,()$=&\'";:%#@ abcxyz'


def put(buf, col, s):
    for i, ch in enumerate(s):
        while len(buf) < col - 1 + i + 1:
            buf.append(' ')
        buf[col - 1 + i] = ch


def mkline(**kw):
    """A card line from field texts placed at their columns."""
    buf = []
    for n in FNAMES:
        v = kw.get(n)
        if v:
            st, w = SPAN[n]
            put(buf, st, v[:w])
    return ''.join(buf).rstrip() if kw.get('trim', True) else ''.join(buf)


# every printable character
PRINT = ''.join(map(chr, range(32, 127)))
INK = PRINT.replace(' ', '').replace(',', '').replace('"', '')


def rtext(rng, n, chars=None):
    if chars is None:
        chars = TEXT if rng.random() < 0.7 else PRINT
    return ''.join(rng.choice(chars) for _ in range(n))


def field_text(rng, n):
    """Random content of an n-column field: often full or touching an edge."""
    k = rng.random()
    if k < 0.25:
        return ''
    if k < 0.45:
        return rtext(rng, n)
    if k < 0.6:
        return ' ' * (n - 1) + rng.choice(ALNUM)
    if k < 0.7:
        return rng.choice(ALNUM)
    m = rng.randint(1, n)
    return (' ' * rng.randint(0, n - m)) + rtext(rng, m)


def random_card_line(rng, col1=None):
    """Any card image of at most 120 columns."""
    buf = []
    for n in FNAMES:
        st, w = SPAN[n]
        t = field_text(rng, w)
        if n == 'column1':
            t = col1 if col1 is not None else rng.choice(
                [' ', ' ', ' ', 'P', 'R', 'L', 'p', 'r', 'l', 'A', '*', '1',
                 'X', 'RL', '-'])[:1]
        if n == 'column8' and rng.random() < 0.5:
            t = rng.choice(['*', ' ', '-', 'R', '@', '0'])
        if n == 'operation' and rng.random() < 0.5:
            t = operation(rng)
        put(buf, st, t)
    s = ''.join(buf)[:WIDTH]
    if rng.random() < 0.3:
        s = s[:rng.randint(0, WIDTH)]
    if rng.random() < 0.5:
        s = s.rstrip()
    return s


WILD = ALNUM + ALNUM + '+-*/.()=&:%@abcxyz'


def wild(rng, n):
    """Any text of 1 to n characters without blanks or commas."""
    return rtext(rng, rng.randint(1, n), rng.choice([WILD, ALNUM, INK]))


def operation(rng):
    m = rng.choice(gold.ALL) if rng.random() < 0.8 else rng.choice(
        ['XX', 'BAD', 'ba', 'BAX', 'B', 'NOPE', 'HLT', 'T X', 'Ba'])
    k = rng.random()
    if k < 0.04:
        # near misses of a mnemonic, and anything at all
        i = rng.randrange(len(m))
        m = rng.choice([m[:i] + m[i + 1:] or 'Q', m[:i] + 'Q' + m[i:],
                        m[:i] + ' ' + m[i:], m[::-1], m + m, wild(rng, 13)])
        if m.strip().startswith('SETLOC'):
            m = 'SETLO'
        k = rng.random()
    if k < 0.6:
        return m[:13]
    if k < 0.75:
        return (m + ',' + rng.choice(['M', 'MASK', 'A,B', '', '1', 'F1']))[:13]
    if k < 0.85:
        return (m + ' ,' + rng.choice(['M', ' X']))[:13]
    if k < 0.95:
        return (m + ', ' + rng.choice(['M1', 'Q', 'C,D']))[:13]
    return (' ' + m)[:13]


LABELS = ['ALPHA', 'BETA', 'GAMMA', 'A1', 'A2', 'X', 'Y', 'LOOP', 'LOOP1',
          'TABLE', 'TAB', 'START', 'STARTX', 'ENDX', 'Q']
BADLABELS = ['alpha', 'Beta', 'A1x', 'B,T,U', 'A,,', 'B,X,', 'Q,TAB', 'A,X',
             'L,TAB', 'X,TAB', 'BB,T', 'b,TAB', 'F,tab', 'C,X', '1,Z']


def label_text(rng):
    k = rng.random()
    base = rng.choice(LABELS)
    if rng.random() < 0.01:
        # letters of other alphabets, in either case
        base = base[:3] + rng.choice('\xc9\xe9\xdc\xfc\u03a9\u03c9\u042f'
                                     '\u044f')
    if k < 0.55:
        return base
    if k < 0.72:
        return rng.choice('BFSZ') + rng.choice([',', ', ', ' ,', ' , ']) + base
    if k < 0.82:
        # blanks inside
        p = rng.randrange(len(base) + 1)
        return base[:p] + ' ' + base[p:]
    if k < 0.90:
        return rng.choice(BADLABELS)
    if k < 0.94:
        return rng.choice(INK) + ',' + base
    t = rtext(rng, rng.randint(1, 6), rng.choice(
        [ALNUM, '0123456789', 'BFLSXZ', 'AB12-./+*()=$#@',
         INK]))
    return rng.choice(['', '', 'B,', 'F,', 'S,', 'Z,']) + t


def setloc(rng):
    if rng.random() < 0.15:
        return 'SETLOC,' + wild(rng, 6)
    return rng.choice(['SETLOC', 'SETLOC,1', 'SETLOC,2', 'SETLOC, 3',
                       'SETLOC,10', 'SETLOC,0', 'SETLOC ,2', 'SETLOC,2 ',
                       'SETLOC,A', 'SETLOC,2,9'])


def operand(rng):
    if rng.random() < 0.1:
        return wild(rng, 14)
    return rng.choice(['', '', 'A', 'B', '1', 'C,0', '-', 'LOOP+1', 'X', 'Y1'])


def symbol_card(rng, density=0.7):
    lab = label_text(rng) if rng.random() < density else ''
    k = rng.random()
    if k < 0.12:
        op = setloc(rng)
        if rng.random() < 0.8:
            lab = ''
    elif k < 0.30:
        op = 'EQUALS'
    elif k < 0.45:
        op = 'ASSIGN'
    elif k < 0.52:
        op = ''
    elif k < 0.62:
        op = rng.choice(['RESERVE', 'TAS', 'OCT', 'ALF', 'DEC', 'ASSIGN,X',
                         'EQUALS,1', 'ASSIGNS'])
    else:
        op = operation(rng)
    if rng.random() < 0.3:
        a = b = c = 'A'
        if rng.random() < 0.3:
            c = 'B'
        if rng.random() < 0.5:
            # long operands, equal or apart in one character
            n = rng.choice([3, 9, 13, 13])
            a = b = c = rng.choice(['TRAJECTORYPT1', 'TRAJECTORYPT1',
                                    'ENTRYANGLE'])[:n]
            if rng.random() < 0.5:
                i = rng.randrange(len(a))
                x = a[:i] + rng.choice('XZ2') + a[i + 1:]
                a, b, c = rng.choice([(x, b, c), (a, x, c), (a, b, x),
                                      (a, x, x), (x, x, c), (a, b, x + 'S'),
                                      (a, b, ' ' + c)])
    else:
        a, b, c = operand(rng), operand(rng), operand(rng)
    lead = ' ' * rng.randint(0, 2) if rng.random() < 0.1 else ''
    return mkline(
        column1=rng.choice([' '] * 12 + ['P', 'R', 'L', 'A', '1',
                                         rng.choice(WILD)]),
        lognum=rng.choice(['', '0001', '%04d' % rng.randrange(10000),
                           '123456', wild(rng, 6)]),
        column8=rng.choice([' '] * 12 + ['*', '*', '-', 'X',
                                         rng.choice(WILD)]),
        label=(lead + lab)[:11], operation=op, operand1=a, operand2=b,
        operand3=c, misc=rng.choice(['', '', '12345', 'S1']),
        remarks=rng.choice(['', 'REMARK', '* STAR', 'a, b, c']))


def misc_line(rng):
    return rng.choice([
        '', '   ', '# comment', '#', '# Page 3', '#$inc', '#      *ABC',
        'R      * A REMARK', 'P', 'L       LOG SECTION', 'R',
        ' $notinclude', ' # not a comment'])


def source_lines(rng, n, includes=(), card=symbol_card, fill=None):
    out = []
    for _ in range(n):
        k = rng.random()
        if includes and k < 0.10:
            inc = rng.choice(includes)
            out.append('$' + rng.choice([inc, ' ' + inc, inc + '  trailing',
                                         '  ' + inc + ' ', inc + '\tx',
                                         '\t' + inc, ' \t' + inc + ' y z',
                                         inc + ' $inc9']))
        elif k < 0.20:
            out.append(misc_line(rng))
        else:
            out.append(dress(rng, card(rng)))
    return out


def dress(rng, line):
    """Now and then: blanks at the end, tabs or other letters in the remarks
    (columns 81-120)."""
    k = rng.random()
    if k < 0.04:
        return line + ' ' * rng.choice([1, 3, max(1, 80 - len(line)),
                                        max(1, 120 - len(line))])
    if k < 0.08:
        return line[:80].ljust(80) + rng.choice(
            ['A\tB', 'X  \t Y', '\xbd INCH', 'R\xe9SUM\xe9', '\u03a9 \u2248 1',
             '$inc1', '# NOT', '%s %d %%', '{0} {x}', '\\n \\t', "'QUOTED'",
             '"', 'X' * 40])
    if k < 0.09:
        return line[:80].ljust(80) + rtext(rng, 4, 'AE\xe9' + ODD)
    return line


NAMESETS = [['prog.argus'], ['prog1.argus', 'prog2.argus'],
            ['a.argus', 'b.argus', 'c.argus'], ['PROG', 'other.txt'],
            ['src/main.argus', 'src/lib.argus'], ['X.y.argus', 'X.argus'],
            ['one.argus', 'src/one.argus'],
            ['archive/transcriptions/apollo-guidance/simulation/section-one/'
             'main-program.argus', 'prog.argus']]
INCNAMES = ['inc1', 'inc2.argus', 'sub/inc3.argus', 'deep.inc', 'common',
            'archive/transcriptions/library-of-subroutines/trigonometric/'
            'arctangent.argus']
# for tools that make file names of file names
DOTTED = [['v1.2/prog', 'v1.2/lib.argus'], ['v1.2/prog'],
          ['my prog.argus', 'a b/c d'], ['prog.lst.argus', 'x.'],
          ['.prog', '.lib.argus'], ['v1.2/.prog', 'prog']]


# names that a shell, a formatter or a path helper would change
SHELL = [['a[1].argus'], ['?.argus', 'b.argus'], ['*', 'b.argus'], ['~', 'b'],
         ['~root.argus'], ['-'], ['$HOME.argus', 'x$PATH'], ['${USER}', 'b'],
         ['!x', '#x.argus'], [' lead.argus', 'trail .argus'], ['trail '],
         ["a'b.argus", 'a"b'], ['a\\b.argus', 'b'], ['a|b', 'a;b.argus'],
         ['%d.argus', '%(x)s'], ['{0}.argus', '{x}'], ['a\tb.argus'],
         ['@b', 'b'], ['<in', '>out'], ['a,b.argus', 'a:b'], ['con', 'nul'],
         ['a+b.argus', '%2e%2e'], ['CAF\xc9.argus', 'CAFE\u0301.argus'],
         ['x.lst.argus', 'b'], ['1', '2'], ['None', 'b'],
         ['http:/b', 'file:b'], ['__init__.py', 'h800']]
SHELLINC = ['a[1]', '*', '~', '-', '$x', 'x$HOME', '${USER}', '#i', '!i',
            '%s', '{0}', '@i', '<i>', 'i\\j', 'i;j', 'i,j', 'i:j', '&i', '1',
            '"', "'i", '(i)', '|']
SHELLDECOY = ['a1', 'a1.argus', 'z.argus', 'aXb', 'x']


def wild_names(rng):
    """One to four source names without a common stem."""
    out, stems = [], {os.path.splitext(n)[0] for n in INCNAMES}
    dirs = {'inc1', 'common'}
    chars = rng.choice(['abcdefgzABCXYZ0129_-+=@%', 'abcdefghijklmnopqrstuvwxyz'
                        'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_',
                        "abXY01_,:;~!&^()[]{}'\xe9"])
    while len(out) < rng.choice([1, 2, 4]):
        n = rng.choice('abXYZ09_') + rtext(rng, rng.randint(0, 12), chars)
        n += rng.choice(['', '.argus', '.ARGUS', '.a.b', '.txt', '.0',
                         '.' + rng.choice(chars)])
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            n = rng.choice('abXYZ09_') + rtext(rng, 3, chars) + '/' + n
        ups = {n[:i] for i, c in enumerate(n) if c == '/'}
        stem = os.path.splitext(n)[0]
        if stem in stems or ups & (stems | set(out)) or \
                {n, stem} & dirs or ups & {'inc1', 'common'}:
            continue
        out.append(n)
        stems |= {stem, n}
        dirs |= ups
    return out


def file_tree(rng, maxlines=25, card=symbol_card, tops=None):
    """(files, top-level names): an acyclic include structure."""
    shell = not tops and rng.random() < 0.06
    tops = list(tops or (wild_names(rng) if rng.random() < 0.2
                         else rng.choice(NAMESETS)))
    if shell and rng.random() < 0.7:
        tops = list(rng.choice(SHELL))
    incs = rng.sample(INCNAMES, rng.choice([0, 0, 1, 2, 3, 5]))
    if shell and rng.random() < 0.6:
        incs = [n for n in incs[:2] + rng.sample(SHELLINC, 3)
                if n not in tops]
        rng.shuffle(incs)
    if incs and rng.random() < 0.2:
        incs += [n for n in wild_names(rng) if os.path.splitext(n)[0] not in
                 [os.path.splitext(t)[0] for t in tops] and
                 not any(t.startswith(n + '/') or n.startswith(t + '/')
                         for t in tops)]
        rng.shuffle(incs)
    files = {}
    for i, name in enumerate(incs):
        # may include only later ones: no cycles
        files[name] = source_lines(rng, rng.choice([0, 1, 3, maxlines // 2]),
                                   incs[i + 1:], card)
    for t in tops:
        files[t] = source_lines(rng, rng.choice([0, 1, 5, maxlines,
                                                 maxlines]), incs, card)
    if shell:
        for n in SHELLDECOY:
            files.setdefault(n, ['R DECOY'])
    if rng.random() < 0.2 and not shell:
        # other files of the included names, elsewhere: named by nothing
        for dn in sorted({os.path.dirname(f) for f in files} - {''}):
            for name in incs:
                files.setdefault(dn + '/' + name, ['R DECOY'])
    if rng.random() < 0.2 and not shell:
        # and files of similar names
        for name in incs:
            for n in (name.lower(), name.upper(), name + '.argus',
                      os.path.splitext(name)[0], os.path.basename(name),
                      name + 'x', 'src/' + name):
                ups = [n[:i] for i, c in enumerate(n) if c == '/']
                if n not in files and not set(ups) & set(files) and \
                        not any(f.startswith(n + '/') for f in files):
                    files[n] = ['R DECOY']
    return files, tops
