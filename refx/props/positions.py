"""C16: positions found in a line are only applied to text they fit."""
import itertools
import re

from .. import rx as rxm
from .. import words
from ..common import *  # noqa
from ..words import word
from .lines import Lines, parts_of, tshow

TITLES = {'PHYS REV': 'Phys.Rev.', 'NUCL PHYS': 'Nucl.Phys.', 'PHYS REV LETT': 'Phys.Rev.Lett.'}
REPORT = r"(?:^|[^a-zA-Z0-9\/\.\-])([\[\(]?(?P<categ>CERN TH)(?P<numn>[ \-]?[0-9]{4}[ \-][0-9]{2})[\]\)]?)"


def W(n):
    return list(word(n)[1])


def rxa(p, f=re.UNICODE):
    return V(('RX', rxm.intern((p,), f)))


class Tagger:
    """the recognisers with a small knowledge base, on lines of constants and opaque words"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.L = Lines(ctx)
        self.ip = self.L.ip
        self.fi = ctx.need('tag_reference_line')
        self.stubs = {}
        self.ok = self.fi is not None and len(self.fi.node.args.args) == 3
        # what comes after the items are in their places
        for name in ('identify_and_tag_authors', 'identify_and_tag_collaborations'):
            f = ctx.fn(name)
            if f is None:
                self.ok = False
            else:
                self.stubs[f.qual] = lambda ip, st, f, a, k, n: [(st, a[0] if a else k[f.node.args.args[0].arg])]

    def kb(self, ip, s):
        n = self.fi.node

        def D(d, tag):
            return V(ip.new_dict(s, n, {k if isinstance(k, tuple) else const(k): (v, True) for k, v in d.items()}, tag=tag))
        ks = sorted(TITLES, key=len, reverse=True)
        key = ('U', (cst(1), cst('CERN TH')))
        pub = D({'Springer': D({'pattern': rxa(r"(\b|^)Springer(\b|$)", re.I | re.U), 'repl': cst('Springer')}, 'pi')}, 'pb')
        return {
            'journals': V(('U', (D({k: rxa(r"(?<!\w)(%s)\W" % re.escape(k)) for k in ks}, 'j1'),
                                 D({k: cst(v) for k, v in TITLES.items()}, 'j2'), V(ip.new_list(s, n, [cst(k) for k in ks], tag='j3'))))),
            'journals_re': V(ip.new_list(s, n, [V(('U', (cst(r'\bDAN\b'), cst('DAN'))))], tag='jre')),
            'report-numbers': V(('U', (D({key: rxa(REPORT)}, 'r1'), D({key: cst('CERN-TH')}, 'r2')))),
            'publishers': pub,
            'authors': V(ip.new_list(s, n, (), tag='au')),
        }

    def tag(self, line):
        def setup(ip, s):
            args, kw = self.L.setup(ip, s)
            o = s.heap[single(args[1])[1]]
            ent = dict(o.ent)
            for k, v in self.kb(ip, s).items():
                ent[const(k)] = (v, True)
            s.put(single(args[1])[1], o.but(ent=ent))
            return [V(line), args[1], V(ip.new_dict(s, self.fi.node, {}, tag='bad'))], {}
        rets, excs = self.ctx.scenario(self.ip, self.fi, setup, stubs=self.stubs, limit=20)
        out = []
        for s, v in rets:
            a = single(v)
            a = single(a[1][0]) if a is not None and a[0] == 'U' and a[1] else None
            if a is None or not (a[0] == 'C' or words.wordy(a)):
                return None
            out.append(a)
        return out

    def call(self, name, args):
        f = self.ctx.fn(name)
        if f is None or len(f.node.args.args) != len(args):
            return None
        rets, excs = self.ctx.scenario(self.ip, f, lambda ip, s: ([x(ip, s) if callable(x) else V(x) for x in args], {}))
        return rets


TAGS = re.compile(r'</?cds\.[A-Za-z]+ ?/?>')


def letters(ps, ibid=False):
    """letters, digits and words of a term, in order; the title before an ibid in its place"""
    out = []
    for p in ps:
        if isinstance(p, str):
            out += [c for c in TAGS.sub('', p).casefold() if c.isalnum()]
        else:
            out.append(p[1])
    return out


# texts in front of and between the items
TEXTS = [
    ('text', lambda i: W('t%d' % i) + [', ']),
    ('text with punctuation', lambda i: W('t%d' % i) + ['., ; - ']),
    ('text with a sharp s', lambda i: ['Stra\u00dfe '] + W('t%d' % i) + [', ']),
    ('text with a dotted I', lambda i: W('t%d' % i) + [' \u0130stanbul, ']),
    ('text with several spaces', lambda i: W('t%d' % i) + [' x  y   z , ']),
    ('text with a DOI tag', lambda i: W('t%d' % i) + [' <cds.DOI /> ']),
    ('text in quotes', lambda i: W('t%d' % i) + [', "The title", ']),
    ('nothing', lambda i: []),
]
ITEMS = [
    ('a journal', ['Phys. Rev. 12 (1999) 34; '], None),
    ('a journal with a series', ['Nucl. Phys. B 12 (1999) 34; '], None),
    ('a journal with dots and spaces', ['Phys.  Rev. . Lett.  12 (1999) 34; '], None),
    ('an ibid', ['ibid. 15 (2001) 44; '], 'ibid'),
    ('a report number', ['CERN-TH-2001-12; '], None),
    ('a report number in brackets', ['[CERN-TH 2001-12]; '], None),
    ('an arXiv number', ['arXiv:1207.7214; '], None),
    ('a publisher', ['Springer, '], None),
    ('a journal found by its own pattern', ['DAN 12 (1999) 34; '], None),
]
END = lambda: W('end')


def expected(ps, items):
    """letters of the line, ibids standing for the title in front of them"""
    return ps


def lines16(tier):
    n = 3 if tier == 'thorough' else 2
    for k in range(1, n + 1):
        for its in itertools.product(range(len(ITEMS)), repeat=k):
            if ITEMS[its[0]][2] == 'ibid':
                continue
            if k > 1 and any(ITEMS[i][2] == 'ibid' and ITEMS[its[j - 1]][0] not in (
                    'a journal', 'a journal with a series', 'an ibid', 'a journal with dots and spaces') for j, i in enumerate(its) if j):
                continue
            if k == 1:
                txts = itertools.product(range(len(TEXTS)), repeat=1)
            elif k == 2:
                txts = [(0, 0), (1, 1), (2, 1), (3, 7), (4, 4), (7, 7), (5, 6)]
            else:
                txts = [(2, 1, 7), (4, 0, 1)]
            for tx in txts:
                yield its, tx


def build(its, tx):
    ps, want, title, series = [], [], None, ''
    for j, (i, t) in enumerate(zip(its, tx)):
        a = TEXTS[t][1](j)
        ps += a
        want += letters(a)
        it = ITEMS[i]
        ps += it[1]
        if it[2] == 'ibid':
            w = letters([it[1][0].replace('ibid', title or 'ibid').replace(' 15', ' ' + series + '15')])
        else:
            w = letters(it[1])
            m = re.match(r'((?:Phys|Nucl)[. ]*(?:Rev|Phys)[. ]*(?:Lett)?)', it[1][0])
            if m:
                title = m.group(1)
                series = 'B' if ' B 12' in it[1][0] else ''
        want += w
    ps += END()
    want += letters(END())
    return mkstr(ps), want


def c16(ctx):
    ctx.rule('lines of up to two (thorough: three) items of every recogniser between opaque texts, with characters whose upper case is longer, '
             'stripped punctuation, several spaces and tags in front of them, propagated through the recognisers to the tagged line: every word, '
             'letter and digit of the line is there, once, in its order, and no word is cut')
    T = Tagger(ctx)
    if T.ok:
        for its, tx in lines16(ctx.tier):
            if ctx.incomplete and 'time budget exhausted' in ctx.incomplete:
                return
            line, want = build(its, tx)
            got = T.tag(line)
            if got is None or not got:
                ctx.count('imprecise_results')
                continue
            ctx.count('lines_judged')
            for a in got:
                ps = parts_of(a)
                g = letters(ps)
                if g != want:
                    d = ' + '.join('%s, %s' % (TEXTS[t][0], ITEMS[i][0]) for i, t in zip(its, tx))
                    ctx.report_static('misplaced', ITEMS[its[0]][0] + '/' + TEXTS[tx[0]][0], 'tag_reference_line',
                                      'line with %s: %s becomes %s' % (d, tshow(parts_of(line)), tshow(ps)))
            if len(ctx.findings) >= 12:
                return
    stages(ctx, T)


DOIS = ['doi:10.1000/a1', 'doi: 10.1234/bcde.22', 'http://dx.doi.org/10.1016/x33']
URLS = ['http://a.org/b1', 'https://www.example.com/cc2', '<a href="http://c.org/d">some text</a>']
HDLS = ['hdl:1234/56', 'hdl:10.22/abc']


def between(xs):
    ps = W('t0')
    for i, x in enumerate(xs):
        ps = ps + [' ' + x + ' '] + W('t%d' % (i + 1))
    return mkstr(ps)


def same_positions(a, b):
    """b is a with characters replaced by underscores"""
    va, vb = words.vec(a), words.vec(b)
    return va is not None and vb is not None and all(
        len(x) == len(y) and all(q in (p, '_', ' ') for p, q in zip(x, y)) for x, y in zip(va, vb))


def stages(ctx, T):
    ctx.rule('one to three items of one recogniser between opaque texts: the texts stay whole and in order and each item is replaced by its '
             'tag, or, where positions are recorded, by as many underscores as it has characters; hdl identifiers are cut out of their texts')
    for name, kinds, tag in (('identify_and_tag_DOI', DOIS, '<cds.DOI />'), ('identify_and_tag_URLs', URLS, '<cds.URL />')):
        for n in (1, 2, 3):
            for xs in itertools.product(kinds, repeat=n):
                line = between(xs)
                rets = T.call(name, [line])
                for s, v in rets or ():
                    a = single(v)
                    a = single(a[1][0]) if a is not None and a[0] == 'U' and len(a[1]) == 2 else None
                    if a is None or not words.wordy(a):
                        ctx.count('imprecise_results')
                        continue
                    ctx.count('lines_judged')
                    if words.vec(a) != words.vec(between([tag] * n)):
                        ctx.report_static('tagging', name, name, '%s becomes %s' % (tshow(parts_of(line)), tshow(parts_of(a))))
    for name, kinds, more in (
            ('identify_ibids', ['IBID', 'IBID.', 'IBID'], ()),
            ('identify_journals', list(TITLES), ('journals',)),
            ('identify_report_numbers', ['CERN TH 2001 12', '[CERN TH 1999 13]'], ('report-numbers',))):
        for n in (1, 2, 3):
            for xs in itertools.product(kinds, repeat=n):
                line = between(xs)
                rets = T.call(name, [line] + [lambda ip, s, k=k: T.kb(ip, s)[k] for k in more])
                for s, v in rets or ():
                    a = single(v)
                    if a is None or a[0] != 'U':
                        ctx.count('imprecise_results')
                        continue
                    strs = [x for x in (single(y) for y in a[1]) if x is not None and words.wordy(x)]
                    if len(strs) != 1:
                        ctx.count('imprecise_results')
                        continue
                    ctx.count('lines_judged')
                    if not same_positions(line, strs[0]):
                        ctx.report_static('masking', name, name, 'the characters of %s are not in their places in %s' % (
                            tshow(parts_of(line)), tshow(parts_of(strs[0]))))
    f = ctx.fn('look_for_hdl')
    if f is None or len(f.node.args.args) != 1:
        return
    for n in (1, 2, 3):
        for xs in itertools.product(HDLS, repeat=n):
            line = between(xs)
            ref = []

            def lst(ip, s):
                e = ip.new_dict(s, f.node, {const('type'): (cst('MISC'), True), const('misc_txt'): (V(line), True)}, tag='hdlel')
                r = ip.new_list(s, f.node, [V(e)], tag='hdllist')
                ref[:] = [r]
                return V(r)
            for s, v in T.call('look_for_hdl', [lst]) or ():
                o = s.heap.get(ref[0][1])
                got = []
                for x in o.items if o is not None and not o.rest else ():
                    a = single(x)
                    e = s.heap.get(a[1]) if a is not None and a[0] == 'R' else None
                    for k in ('hdl_id', 'misc_txt'):
                        y = single(e.ent[const(k)][0]) if e is not None and const(k) in e.ent else None
                        if y is not None and is_strlike(y):
                            got += letters(parts_of(y))
                        elif e is None or k == 'misc_txt':
                            got = None
                            break
                    if got is None:
                        break
                if not got:
                    ctx.count('imprecise_results')
                    continue
                ctx.count('lines_judged')
                want = letters(parts_of(between([x[4:] for x in xs])))
                if got != want:
                    ctx.report_static('hdl', 'look_for_hdl', 'look_for_hdl', '%s is cut into %s' % (
                        tshow(parts_of(line)), ' '.join(str(x if isinstance(x, str) else '<%s>' % x[1]) for x in got)))


def is_strlike(a):
    return a[0] == 'C' and isinstance(a[2], str) or words.wordy(a)
