"""C12-C14: punch cards, ARGUS cards and decks."""
import os
import random

from . import model as M
from .core import by_position, Check, call, expect, expect_ok, expect_raises, short
from h800 import arguscard, punchcard


def cols_default():
    return list(M.STARTS), M.WIDTH, list(M.FNAMES)


class C12(Check):
    id = 'C12'
    rule = ('random lines (0..200 characters of printable ASCII, blanks, '
            'tabs; with and without terminator) under the default layout and '
            'random layouts (1..12 ascending start columns, random widths '
            'and field names); every field is compared with the characters '
            'at its columns and the fields concatenated with the line. '
            'Distinct = (layout, line) pairs with a non-blank field.')
    require = {'cards': 5000, 'fields': 40000, 'comments': 300,
               'custom_layouts': 2000}

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.share(1200000 if ctx.thorough else 200000)):
            k = rng.random()
            n = rng.choice([0, 1, 2, 5, 8, 9, 19, 20, 33, 46, 60, 75, 76, 80,
                            81, 100, 119, 120, 121, 140, 200,
                            rng.randint(0, 200)])
            if rng.random() < 0.004:
                n = rng.choice([255, 256, 257, 1000, 1025, 4097, 20000])
            chars = rng.choice([M.TEXT, M.TEXT + '\t', M.ALNUM, 'A ', ' ',
                                M.TEXT + '\xbd\xa3\xe9\u03a9\u2248',
                                'AEe ,' + M.ODD,
                                M.TEXT + ' ' * 60])
            if k < 0.3:
                line = M.random_card_line(rng)
            else:
                line = M.rtext(rng, n, chars)
            if rng.random() < 0.06:
                line = '#' + line
            if rng.random() < 0.5:
                line += '\n'
            case = {'line': line, 'filename': rng.choice(
                [None, 'x.argus', 'dir/y', M.wild(rng, 9)]),
                'linenum': rng.choice([0, 1, 7, 99999, 10**7])}
            if rng.random() < 0.5:
                nf = rng.randint(1, 12) if rng.random() < 0.97 else \
                    rng.randint(13, 100)
                width = rng.choice([80, 120, 40, 1 + nf * 3, 130])
                if rng.random() < 0.01 or n > 200:
                    width = rng.choice([255, 256, 300, 1024, 5000])
                starts = sorted(rng.sample(range(1, max(width, nf) + 1), nf))
                if rng.random() < 0.6:
                    starts[0] = 1
                case.update(starts=starts, width=max(width, starts[-1]),
                            names=self.names(rng, nf))
            elif rng.random() < 0.1:
                # only part of the layout given
                part = rng.randrange(3)
                if part == 0:
                    case['names'] = self.names(rng, 10)
                elif part == 1:
                    case['width'] = rng.choice([81, 82, 100, 119, 121, 200])
                else:
                    case['starts'] = sorted(rng.sample(
                        range(1, 121), rng.randint(1, 10)))
            yield case

    @staticmethod
    def names(rng, n):
        k = rng.random()
        if k < 0.4:
            return ['f%d' % i for i in range(n)]
        out = cols_default()[2]
        if k < 0.7 and n <= len(out):
            return rng.sample(out, n)
        out = []
        while len(out) < n:
            x = M.wild(rng, 9) if rng.random() < 0.8 else rng.choice(
                ['', ' ', 'line', 'fields', 'record', '0', 'None'])
            if x not in out and x != 'linenum':
                out.append(x)
        return out

    def run(self, ctx, case):
        line = case['line']
        kw = {'filename': case['filename'], 'linenum': case['linenum']}
        starts, width, names = cols_default()
        if 'starts' in case:
            kw['fields'] = starts = list(case['starts'])
            names = names[:len(starts)]
            ctx.ev('custom_layouts')
        if 'width' in case:
            kw['width'] = width = case['width']
        if 'names' in case:
            kw['fieldnames'] = names = list(case['names'])
        what = 'card %r layout %r width %d' % (line, starts, width)
        if (len(line) + case['linenum']) % 4 == 0:
            a = by_position([('width', width), ('fields', starts),
                             ('fieldnames', names), ('filename', None),
                             ('linenum', 0)], kw)
            c = expect_ok(call(punchcard.PunchCard, line, *a), what)
            ctx.ev('cards made by position')
        else:
            c = expect_ok(call(punchcard.PunchCard, line, **kw), what)
        body = line.replace('\n', '')
        expect(c.line == body and str(c) == body, '%s: line is %r', what,
               c.line)
        expect(c.filename == case['filename'] and
               c.linenum == case['linenum'], '%s: provenance %r:%r', what,
               c.filename, c.linenum)
        comment = line.startswith('#')
        expect(bool(c.isComment) == comment, '%s: isComment %r', what,
               c.isComment)
        expect(c.comment == (body if comment else None), '%s: comment %r',
               what, c.comment)
        if comment:
            ctx.ev('comments')
            return
        ends = starts[1:] + [width + 1]
        widths = [e - s for s, e in zip(starts, ends)]
        expect([tuple(x) for x in c.layout] == list(zip(starts, widths)),
               '%s: layout %r', what, c.layout)
        want = [M.columns(body, s, n) for s, n in zip(starts, widths)]
        expect(list(c.fields) == want, '%s: fields %r, columns hold %r', what,
               c.fields, want)
        expect(''.join(c.fields) == body[starts[0] - 1:width],
               '%s: fields do not concatenate to the card', what)
        stripped = [M.strip_or_none(x) for x in want]
        expect(list(c.strippedFields) == stripped, '%s: stripped fields %r, '
               'should be %r', what, c.strippedFields, stripped)
        for nme, v in zip(names, stripped):
            expect(nme in c.record and c.record[nme] == v,
                   '%s: record entry %s is %r, should be %r', what, nme,
                   c.record.get(nme), v)
        extra = set(c.record) - set(names) - {'linenum'}
        expect(not extra, '%s: unexpected record entries %r', what, extra)
        if case['linenum']:
            expect(c.record.get('linenum') == case['linenum'],
                   '%s: record line number %r', what, c.record.get('linenum'))
        if 'starts' in case and 'names' in case:
            expect(starts == case['starts'] and names == case['names'],
                   '%s: the caller\'s layout was modified', what)
        ctx.ev('cards')
        ctx.ev('fields', len(want))
        if any(stripped):
            ctx.state(line, starts, width)
        ctx.sample(case)


ACCESS = [('column1', 'column1'), ('lognum', 'lognum'),
          ('column8', 'column8'), ('label', 'label'), ('location', 'label'),
          ('operation', 'operation'), ('operand1', 'operand1'),
          ('addressa', 'operand1'), ('operand2', 'operand2'),
          ('addressb', 'operand2'), ('operand3', 'operand3'),
          ('addressc', 'operand3'), ('sequence', 'misc'),
          ('remarks', 'remarks')]


def same_text(a, b):
    """Equal, blank and None being the same."""
    return a == b or (a in (None, '') and b in (None, ''))


def compare_card(c, m, what):
    prl = m.f['column1'] in ('P', 'R', 'L')

    def text(f, got):
        if f == 'remarks' and prl:      # blank remarks: '' or None
            return same_text(got, m.f[f])
        return got == (m.f[f] or None)
    for acc, f in ACCESS:
        got = getattr(c, acc)
        expect(text(f, got), '%s: %s is %r, should be %r', what,
               acc, got, m.f[f])
    for f in M.FNAMES:
        expect(text(f, c.record[f]), '%s: record %s is %r, should '
               'be %r', what, f, c.record[f], m.f[f])
    expect(same_text(c.instruction, m.instruction),
           '%s: instruction is %r, should be %r', what, c.instruction,
           m.instruction)
    expect(same_text(c.record['instruction'], m.instruction),
           '%s: record instruction is %r, should be %r', what,
           c.record['instruction'], m.instruction)
    expect(c.line == m.line and str(c) == m.line, '%s: line is %r', what,
           c.line)
    expect(list(c.fields) == m.raw, '%s: fields %r, columns hold %r', what,
           c.fields, m.raw)


class C13(Check):
    id = 'C13'
    rule = ('random card images biased to full and edge-touching fields, '
            'every column-1 and column-8 character, operations with blanks '
            'and commas anywhere, truncated and untrimmed lines; every '
            'accessor and record entry compared with a per-column reading. '
            'Distinct = card images observed.')
    require = {'cards': 10000, 'prl': 1500, 'comma_ops': 1000,
               'touching': 2000}

    def cases(self, ctx):
        rng = ctx.rng
        for ch in ctx.mine([chr(i) for i in range(32, 127)]):
            if ch in '#':
                continue
            for _ in range(6):
                yield {'line': M.random_card_line(rng, ch), 'nl': True}
        for _ in range(ctx.share(1200000 if ctx.thorough else 80000)):
            k = rng.random()
            if k < 0.55:
                line = M.random_card_line(rng)
            elif k < 0.8:
                line = M.symbol_card(rng)
            elif k < 0.9:
                line = rng.choice('PRL') + M.rtext(
                    rng, rng.randint(0, rng.choice([119, 119, 240])))
            else:
                # every column occupied by an identifiable character
                line = ''.join(M.ALNUM[(i * 7 + rng.randrange(3)) % 36]
                               for i in range(rng.randint(1, 120)))
            if line.startswith('#'):
                continue
            if rng.random() < 0.03 and line[1:]:
                # other letters anywhere
                line = line[0] + ''.join(
                    rng.choice('\xbd\xe9\xc9\u03a9\u2248' + M.ODD) if c != ' ' and
                    rng.random() < 0.3 else c for c in line[1:])
            if len(line) == 120 and rng.random() < 0.5:
                line += M.rtext(rng, rng.randint(1, 30))
            yield {'line': line, 'nl': rng.random() < 0.6}

    def run(self, ctx, case):
        line = case['line']
        m = M.MCard(line)
        given = line + ('\n' if case['nl'] else '')
        k = len(line) % 5
        if k == 1:
            r = call(arguscard.Card, given, filename='x.argus',
                     linenum=len(line))
        elif k == 2:
            r = call(arguscard.Card, given, M.WIDTH, list(M.STARTS),
                     list(M.FNAMES), 'x.argus', len(line))
        elif k == 3:
            r = call(arguscard.Card, line=given)
        else:
            r = call(arguscard.Card, given)
        c = expect_ok(r, 'Card(%r)', line)
        if k in (1, 2):
            expect(c.filename == 'x.argus' and c.linenum == len(line),
                   'card %r: says it is %r:%r', line, c.filename, c.linenum)
        compare_card(c, m, 'card %r' % line)
        expect(not c.isComment and c.comment is None, 'card %r: is a comment',
               line)
        ctx.ev('cards')
        if m.f['column1'] in ('P', 'R', 'L'):
            ctx.ev('prl')
            raw = M.columns(line, 9, 11)
            if raw[:1].strip():
                ctx.ev('prl_column9')
        if m.f['operation'] and ',' in m.f['operation']:
            ctx.ev('comma_ops')
        if any(len(a) and len(b) and a[-1:] != ' ' and b[:1] != ' '
               for a, b in zip(m.raw, m.raw[1:])):
            ctx.ev('touching')
        ctx.state(line)
        ctx.sample(case)


def compare_deck(deck, cards, what, provenance=True):
    got = deck.cards
    expect(len(got) == len(cards), '%s: %d cards, source has %d: %s', what,
           len(got), len(cards),
           first_diff([c.line for c in got], [m.line for m in cards]))
    for i, (c, m) in enumerate(zip(got, cards)):
        w = '%s: card %d (%s:%d)' % (what, i, m.filename, m.linenum)
        expect(c.line == m.line, '%s is %r, source line is %r', w, c.line,
               m.line)
        if provenance:
            expect(c.filename == m.filename and c.linenum == m.linenum,
                   '%s says it is %s:%s', w, c.filename, c.linenum)
            expect(c.record.get('linenum') == m.linenum,
                   '%s: record says line %r', w, c.record.get('linenum'))
        expect(list(deck.fields[i]) == list(c.fields) and
               list(deck.strippedFields[i]) == list(c.strippedFields) and
               deck.records[i] == c.record,
               '%s: the deck\'s lists differ from the card', w)
    for x in (deck.fields, deck.strippedFields, deck.records):
        expect(len(x) == len(cards), '%s: lists of %d entries for %d cards',
               what, len(x), len(cards))
    expect(str(deck) == '\n'.join(m.line for m in cards),
           '%s: text of the deck differs from its cards', what)


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'card %d is %r, should be %r' % (i, x, y)
    return 'one is a prefix of the other'


class C14(Check):
    id = 'C14'
    shrink = ('lines',)
    rule = ('random line lists, and random trees of real files with includes '
            '(nested, repeated, shared, at any position, empty and '
            'comment-only files, no final newline, up to 60 levels and '
            'thousands of cards), read as plain and ARGUS decks and compared '
            'card by card with a reference expansion; the same trees with a '
            'file missing at some depth must stop the program. Distinct = '
            'source trees observed.')
    require = {'decks': 1000, 'cards': 20000, 'included_cards': 2000,
               'missing': 200, 'log_sections': 200, 'line_decks': 300,
               'layout_decks': 200}

    def cases(self, ctx):
        rng = ctx.rng
        for _ in range(ctx.share(300000 if ctx.thorough else 10000)):
            k = rng.random()
            if k < 0.3:
                lines = M.source_lines(rng, rng.choice([0, 1, 4, 30]),
                                       ['inc1', 'inc2'])
                case = {'kind': 'lines', 'lines': lines,
                        'nl': rng.random() < 0.5,
                        'plain': rng.random() < 0.4}
                if case['plain'] and rng.random() < 0.4:
                    case['starts'] = sorted(rng.sample(range(1, 60),
                                                       rng.randint(1, 10)))
                    case['width'] = rng.choice([60, 80, 72, 120, 61])
                yield case
            else:
                card = rng.choice([M.symbol_card, M.random_card_line])
                files, tops = M.file_tree(rng, rng.choice([3, 10, 40]), card)
                for name in files:
                    files[name] = [self.safe(x, files) for x in files[name]]
                    if rng.random() < 0.08:
                        # characters some line splitters break at, or some
                        # decoders treat in their own way
                        for i, x in enumerate(files[name]):
                            if x[:1] not in ('#', '$') and len(x) > 12:
                                k = rng.randrange(rng.choice([0, 9, 9]),
                                                  len(x) - 1)
                                if i == 0 and rng.random() < 0.5:
                                    k = 0
                                files[name][i] = x[:k] + rng.choice(
                                    '\f\x0b\x1c\x1e\x85\t\xe9\u2248' + M.ODD) + \
                                    x[k + 1:]
                case = {'kind': 'files', 'files': files, 'top': tops[0],
                        'nonl': [n for n in files if rng.random() < 0.3],
                        'plain': rng.random() < 0.3,
                        'verbose': rng.random() < 0.1,
                        'style': rng.choice(M.STYLES +
                                            ['up', 'dot', 'round'])}
                if case['plain'] and rng.random() < 0.4:
                    nf = rng.randint(1, 10)
                    case['starts'] = sorted(rng.sample(range(1, 60), nf))
                    case['width'] = rng.choice([60, 80, 72, 120, 61])
                if rng.random() < 0.25:
                    used = sorted(self.reach(files, tops[0]))
                    case['missing'] = rng.choice(used)
                    case['instead'] = rng.choice([None, None, 'directory',
                                                  'dangling'])
                yield case
        for i in ctx.mine(range(16)):
            yield {'kind': 'deep', 'depth': 5 * (i + 1), 'rs': i}
        for i in ctx.mine(range(8)):
            yield {'kind': 'wide', 'n': 1500 * (i + 1), 'rs': i}
        for i in ctx.mine(range(3)):
            yield {'kind': 'long', 'n': 100003, 'rs': i}
        for i in ctx.mine(range(2)):
            yield {'kind': 'often', 'n': 1500 + 9000 * i, 'rs': i}

    @staticmethod
    def safe(line, names=M.INCNAMES):
        if line.startswith('$') and not (line[1:].split() and
                                         line[1:].split()[0] in names):
            line = ' ' + line[1:]
        return line

    @staticmethod
    def reach(files, top):
        seen, todo = set(), [top]
        while todo:
            n = todo.pop()
            if n in seen or n not in files:
                continue
            seen.add(n)
            todo += [x[1:].split()[0] for x in files[n] if x.startswith('$')]
        return seen

    def run(self, ctx, case):
        kind = case['kind']
        if kind == 'lines':
            lines = [x + '\n' if case['nl'] else x for x in case['lines']]
            lines = [self.safe(x) if not x.startswith('$') else x
                     for x in lines]
            given = list(lines)
            mod = punchcard if case['plain'] else arguscard
            kw = self.layout(case)
            if len(lines) % 3 == 0:
                r = call(mod.Deck, given, *by_position([
                    ('file', None), ('width', M.WIDTH),
                    ('fields', list(M.STARTS))], kw))
            elif len(lines) % 3 == 1:
                r = call(mod.Deck, lines=given, **kw)
            else:
                r = call(mod.Deck, given, **kw)
            d = expect_ok(r, 'Deck(%d lines)', len(lines))
            cards = [M.MCard(x.replace('\n', ''), None, i + 1)
                     for i, x in enumerate(lines) if not x.startswith('#')]
            compare_deck(d, cards, 'deck of lines')
            self.columns(ctx, d, cards, case)
            expect(given == lines, 'deck of lines: the caller\'s list was '
                   'modified')
            self.ls(ctx, d, cards, case['plain'])
            ctx.ev('decks')
            ctx.ev('line_decks')
            ctx.ev('cards', len(cards))
            ctx.state(lines)
            return
        if kind == 'deep':
            rng = random.Random('deep%d' % case['rs'])
            files = {}
            n = case['depth']
            for i in range(n):
                body = M.source_lines(rng, 2)
                if i + 1 < n:
                    body.insert(rng.randint(0, len(body)), '$f%d' % (i + 1))
                files['f%d' % i] = [x if x.startswith('$f') else self.safe(x)
                                    for x in body]
            case = dict(case, files=files, top='f0', nonl=[], plain=False)
        elif kind == 'long':
            n = case['n']
            files = [{'big.argus': ['R'] * n},
                     {'big.argus': ['R', '$inc1', 'R'], 'inc1': ['R'] * n},
                     {'big.argus': ['R' * k for k in (
                         255, 256, 257, 1023, 1024, 1025, 4096, 4097, 9000,
                         65537)] + ['$inc1'],
                      'inc1': ['A' * 70000, 'R', ' ' * 5000 + 'X']}
                     ][case['rs']]
            case = dict(case, files=files, top='big.argus', nonl=[],
                        plain=False)
        elif kind == 'often':
            case = dict(case, files={'big.argus': ['$inc1'] * case['n'],
                                     'inc1': ['# x', 'R']},
                        top='big.argus', nonl=[], plain=False)
        elif kind == 'wide':
            rng = random.Random('wide%d' % case['rs'])
            files = {'common': [M.symbol_card(rng) for _ in range(7)]}
            files['big.argus'] = [
                '$common' if i % 97 == 5 else self.safe(M.symbol_card(rng))
                for i in range(case['n'])]
            case = dict(case, files=files, top='big.argus', nonl=[],
                        plain=False)
        files = dict(case['files'])
        if case.get('missing'):
            files.pop(case['missing'], None)
        with ctx.tmpdir() as d:
            files, (top,), _, cwd = M.lay_out(
                d, files, [case['top']], case.get('nonl', ()),
                case.get('style'))
            os.chdir(cwd)
            gone = os.path.join(d, case.get('missing') or '')
            if not os.path.lexists(gone):
                os.makedirs(os.path.dirname(gone), exist_ok=True)
                if case.get('instead') == 'directory':
                    os.mkdir(gone)
                elif case.get('instead') == 'dangling':
                    os.symlink('n0where', gone)
            case = dict(case, top=top)
            mod = punchcard if case['plain'] else arguscard
            kw = self.layout(case)
            if case.get('verbose'):
                kw['verbose'] = True
            if len(files) % 2 and 'verbose' not in kw:
                r = call(mod.Deck, None, *by_position([
                    ('file', None), ('width', M.WIDTH),
                    ('fields', list(M.STARTS))], dict(kw, file=case['top'])))
            else:
                r = call(mod.Deck, file=case['top'], **kw)
            want = M.expand(files, case['top'])
            if want is None:
                expect(not r.ok and isinstance(r.exc, SystemExit) and
                       r.exc.code not in (None, 0),
                       'deck %s with %s missing: expected the program to '
                       'stop with an error, but it %s', case['top'],
                       case.get('missing'), r.desc)
                ctx.ev('missing')
                return
            deck = expect_ok(r, 'deck of %s', case['top'])
            compare_deck(deck, want, 'deck of %s' % case['top'])
            expect(list(deck.lines) == [m.line for m in want],
                   'deck of %s: lines differ from cards', case['top'])
            self.columns(ctx, deck, want, case)
            if not case['plain']:
                for c, m in list(zip(deck.cards, want))[
                        ::max(1, len(want) // 200)]:
                    compare_card(c, m, '%s:%d' % (m.filename, m.linenum))
            self.ls(ctx, deck, want, case['plain'])
        ctx.ev('decks')
        ctx.ev('cards', len(want))
        ctx.ev('included_cards', sum(m.filename != case['top']
                                     for m in want))
        ctx.state(sorted(files.items()), case['top'])
        if kind == 'files':
            ctx.sample({'top': case['top'], 'files':
                        {k: v[:4] for k, v in files.items()}})

    @staticmethod
    def layout(case):
        if 'starts' in case:
            return {'fields': list(case['starts']), 'width': case['width']}
        return {}

    @staticmethod
    def columns(ctx, deck, cards, case):
        """Every card of a plain deck is read with the deck's layout."""
        if not case['plain']:
            return
        starts = case.get('starts') or M.STARTS
        width = case.get('width') or M.WIDTH
        ends = starts[1:] + [width + 1]
        for i, m in enumerate(cards):
            want = [M.columns(m.line, a, b - a) for a, b in zip(starts, ends)]
            expect(list(deck.fields[i]) == want, 'deck with layout %r width '
                   '%d: fields of card %d are %r, columns hold %r', starts,
                   width, i, deck.fields[i], want)
        if 'starts' in case:
            ctx.ev('layout_decks')

    @staticmethod
    def ls(ctx, deck, cards, plain):
        if plain:
            return
        text, col8 = M.log_section(cards)
        if text is None:
            expect(deck.log_section is None and deck.log_section_col8 is None,
                   'deck without L card has log section %r/%r',
                   deck.log_section, deck.log_section_col8)
        else:
            expect(same_text(deck.log_section, text), 'log section is %r, '
                   'first L card says %r', deck.log_section, text)
            expect(same_text(deck.log_section_col8, col8), 'log section '
                   'column 8 is %r, first L card has %r',
                   deck.log_section_col8, col8)
            ctx.ev('log_sections')
