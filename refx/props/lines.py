"""From a tagged line to citations: markup (C11), items (C12), splitting (C15), uniqueness
(C19), numeration (C21), linking (C22), per-line statistics (C23).

The line is a word term: tags and separators are constants, all other text is opaque words
(refx/words.py), so every output string is known as a term over the input words."""
import itertools
import re

from .. import dom, expr, interp, models, words
from ..common import *  # noqa
from ..common import Monitor, P, PS, argvals, stub_any
from ..words import word

KB = ('journals-re', 'journals', 'report-numbers', 'authors', 'books', 'collaborations', 'publishers', 'special_journals', 'dois')


class It:
    """one recognised item of a tagged line"""

    def __init__(self, kind, n, **kw):
        self.kind = kind
        self.n = n
        self.kw = kw
        self.doi = self.url = None
        w = self.w
        self.attrs = {}
        tag = kind
        if kind in ('JOURNAL', 'JOURNALibid'):
            v, y, p = w('vol', kw.get('vol') or '4%d01' % n), w('yr', '199%d' % n), w('pg', kw.get('pg') or '5%d01' % n)
            t = w('title')
            if kw.get('ser'):
                vol = ['B'] + list(v[1])
            else:
                vol = list(v[1])
            self.parts = ['<cds.%s>' % kind] + list(t[1]) + ['</cds.%s>' % kind] + [' <cds.VOL>'] + vol + ['</cds.VOL>']
            if kw.get('yr', True):
                self.parts += [' <cds.YR>('] + list(y[1]) + [')</cds.YR>']
            self.parts += [' <cds.PG>'] + list(p[1]) + ['</cds.PG>']
            self.typ = 'JOURNAL'
            self.attrs = dict(title=t, volume=mkstr(vol), year=y if kw.get('yr', True) else const(''), page=p)
            self.year = y if kw.get('yr', True) else None
        elif kind == 'DOI':
            self.parts = ['<cds.DOI />']
            self.typ = 'DOI'
            self.doi = w('doi')
            self.attrs = dict(doi_string=self.doi)
        elif kind == 'URL':
            self.parts = ['<cds.URL />']
            self.typ = 'URL'
            self.url = (w('url'), w('desc'))
            self.attrs = dict(url_string=self.url[0], url_desc=self.url[1])
        else:
            c = kw.get('content') or w('c')
            self.parts = ['<cds.%s>' % tag] + list(parts_of(c)) + ['</cds.%s>' % tag]
            if kind in ('REPORTNUMBER', 'ARXIV'):
                self.typ = 'REPORTNUMBER'
                self.attrs = dict(report_num=c)
            elif kind.startswith('AUTH'):
                self.typ = 'AUTH'
                self.attrs = dict(auth_txt=c, auth_type=const(kind[4:]))
            elif kind in ('VOL', 'YR', 'PG', 'SER'):
                self.typ = None
                self.text = c
            else:
                self.typ = kind
                self.attrs = {{'QUOTED': 'title', 'ISBN': 'ISBN', 'PUBLISHER': 'publisher', 'COLLABORATION': 'collaboration'}.get(kind, 'x'): c}
        self.key = next((a for k, a in self.attrs.items() if k not in ('auth_type',)), None)

    def w(self, name, text=None):
        return word('%s%d%s' % ('JOURNAL' if text else self.kind, self.n, name), text)


def txt(n, semi=False, lead=''):
    """text between items: word, or word ; word"""
    a = word('text%d' % n)
    if semi == 2:
        return mkstr([lead] + list(a[1]) + ['; '] + list(word('text%db' % n)[1]) + [' ; '] + list(word('text%dc' % n)[1]))
    if semi:
        return mkstr([lead] + list(a[1]) + ['; '] + list(word('text%db' % n)[1]))
    return mkstr([lead] + list(a[1]))


ITEMKINDS = ('JOURNAL', 'JOURNALibid', 'REPORTNUMBER', 'ARXIV', 'URL', 'DOI', 'AUTHstnd', 'AUTHetal', 'AUTHincl', 'QUOTED', 'ISBN',
             'PUBLISHER', 'COLLABORATION')


def assemble(tokens):
    """tokens: atoms (text) and It; returns (line atom, dois, urls)"""
    ps, dois, urls = [], [], []
    for t in tokens:
        if isinstance(t, It):
            ps += t.parts
            if t.doi:
                dois.append(t.doi)
            if t.url:
                urls.append(t.url)
        else:
            ps += list(parts_of(t))
    return mkstr(ps), dois, urls


def describe(tokens):
    out = []
    for t in tokens:
        if isinstance(t, It):
            out.append(t.kind + ('(no year)' if t.kw.get('yr') is False else ''))
        else:
            s = ''.join(p if isinstance(p, str) else 'text' for p in parts_of(t))
            if s:
                out.append(repr(s))
    return ' '.join(out)


class Lines:
    """a session that parses word lines"""

    def __init__(self, ctx, linker=None, kbs=None, maxstates=16):
        self.ctx = ctx
        self.fi = ctx.need('parse_reference_line')
        self.tagged = ctx.need('parse_tagged_reference_line')
        self.linker = linker
        self.kbs = kbs
        self.ip = ctx.session(maxstates=maxstates, words=True, extstubs=dict(refx_linker=self._link))
        self.calls = []
        self.ok = self.fi is not None
        self.stubs = {}
        self.line = self.dois = self.urls = None
        for name, f in (('remove_reference_line_marker', self._marker), ('identify_and_tag_DOI', self._doi),
                        ('identify_and_tag_URLs', self._url), ('tag_reference_line', self._tag)):
            x = ctx.need(name)
            if x is None:
                self.ok = False
            else:
                self.stubs[x.qual] = f

    # what happens before the tagged line exists
    def _marker(self, ip, st, fi, args, kwargs, node):
        return [(st, V(('U', (cst('1'), V(word('rawline'))))))]

    def _doi(self, ip, st, fi, args, kwargs, node):
        return [(st, V(('U', (V(word('rawline')), V(ip.new_list(st, node, [V(d) for d in self.dois], tag='dois'))))))]

    def _url(self, ip, st, fi, args, kwargs, node):
        return [(st, V(('U', (V(word('rawline')), V(ip.new_list(st, node, [V(('U', (V(a), V(b)))) for a, b in self.urls], tag='urls'))))))]

    def _tag(self, ip, st, fi, args, kwargs, node):
        bad = V(ip.new_dict(st, node, {}, tag='bad'))
        return [(st, V(('U', (V(self.line), bad))))]

    def _link(self, ip, st, args, kwargs, node):
        return self.linker(self, ip, st, args, kwargs, node)

    def setup(self, ip, s):
        ent = {}
        for k in KB:
            v = (self.kbs or {}).get(k)
            if v is None:
                o = ip.new_list(s, self.fi.node, (), tag=k) if k == 'special_journals' else ip.new_dict(s, self.fi.node, {}, tag=k)
                ent[const(k)] = (V(o), True)
            else:
                ent[const(k)] = (v(ip, s), True)
        kbs = V(ip.new_dict(s, self.fi.node, ent, tag='kbs'))
        kw = {}
        if self.linker:
            kw['linker_callback'] = V(('X', 'refx_linker'))
        return [V(word('rawline')), kbs], kw

    def parse(self, tokens):
        """(list of (state, citations, counts)), exceptions; None where unknown"""
        self.line, self.dois, self.urls = assemble(tokens)
        self.calls = []
        rets, excs = self.ctx.scenario(self.ip, self.fi, self.setup, stubs=self.stubs)
        out = []
        for s, v in rets:
            for a in v:
                if a[0] == 'U' and len(a[1]) == 4:
                    out.append((s, citations(s, a[1][0]), counts(s, a[1][2])))
        return out, excs

    def items(self, tokens):
        """items of the tagged line before any transformation"""
        self.line, self.dois, self.urls = assemble(tokens)

        def setup(ip, s):
            return [cst('1'), V(self.line), V(ip.new_list(s, self.tagged.node, [V(d) for d in self.dois], tag='d')),
                    V(ip.new_list(s, self.tagged.node, [V(('U', (V(a), V(b)))) for a, b in self.urls], tag='u'))], {}
        rets, excs = self.ctx.scenario(self.ip, self.tagged, setup, stubs={})
        out = []
        for s, v in rets:
            for a in v:
                if a[0] == 'U' and len(a[1]) == 3:
                    out.append((s, elements(s, a[1][0]), counts(s, a[1][2])))
        return out, excs


def elements(s, v):
    """list of {attr: Value} (plus '' -> oid) or None"""
    a = single(v)
    if a is None or a[0] != 'R' or a[1] not in s.heap or s.heap[a[1]].kind != 'list' or s.heap[a[1]].rest:
        return None
    out = []
    for it in s.heap[a[1]].items:
        b = single(it)
        if b is None or b[0] != 'R' or b[1] not in s.heap or s.heap[b[1]].kind != 'dict' or s.heap[b[1]].restk:
            return None
        o = s.heap[b[1]]
        d = {k[2]: e[0] for k, e in o.ent.items() if k[0] == 'C' and e[1]}
        if any(not e[1] for e in o.ent.values()) or single(d.get('type', EMPTY)) is None:
            return None
        d[''] = b[1]
        out.append(d)
    return out


def citations(s, v):
    a = single(v)
    if a is None or a[0] != 'R' or a[1] not in s.heap or s.heap[a[1]].kind != 'list' or s.heap[a[1]].rest:
        return None
    out = []
    for c in s.heap[a[1]].items:
        e = elements(s, c)
        if e is None:
            return None
        out.append(e)
    return out


def counts(s, v):
    a = single(v)
    if a is None or a[0] != 'R' or a[1] not in s.heap or s.heap[a[1]].kind != 'dict':
        return None
    return {k[2]: (getc(e[0]) if is_const(e[0]) else None) for k, e in s.heap[a[1]].ent.items() if k[0] == 'C'}


def typ(el):
    a = single(el['type'])
    return a[2] if a[0] == 'C' else '?'


def text(v):
    """parts of a string value or None"""
    a = single(v)
    return None if a is None else parts_of(a)


CONTENT = {'JOURNAL': ('title', 'volume', 'year', 'page'), 'REPORTNUMBER': ('report_num',), 'URL': ('url_string',), 'DOI': ('doi_string',),
           'HDL': ('hdl_id',), 'AUTH': ('auth_txt',), 'QUOTED': ('title',), 'BOOK': ('title',), 'ISBN': ('ISBN',),
           'PUBLISHER': ('publisher',), 'COLLABORATION': ('collaboration',), 'YEAR': ('year',), 'RECID': ('recid',), 'MISC': ()}


def known(els):
    """every string in these elements is a word term"""
    for e in els:
        for k, v in e.items():
            if k == '':
                continue
            a = single(v)
            if a is None:
                return False
            if a[0] == 'S' and not words.wordy(a):
                return False
            if a[0] == 'T':
                return False
    return True


def wnames(v):
    """the words in a value, in order"""
    ps = text(v)
    return [p[1] for p in ps or () if not isinstance(p, str)]


def show_el(e):
    from .pipeline import show
    return '%s{%s}' % (typ(e), ', '.join('%s: %s' % (k, show(v)) for k, v in e.items() if k not in ('', 'type', 'extra_ibids', 'is_ibid')))


# ---------------------------------------------------------------------------- scenarios
SEP = (('text', lambda n: [txt(n, lead=' ')]), ('semicolon', lambda n: [txt(n, True, lead=' ')]), ('space', lambda n: [const(' ')]))
SEMI2 = lambda n: [txt(n, 2, lead=' ')]
NOYEAR = lambda i: It('JOURNAL', i, yr=False)
REDUCED = ('JOURNAL', 'REPORTNUMBER', 'ARXIV', 'AUTHstnd', 'QUOTED', 'DOI')


def make(kinds, seps, lead=True, tail=True):
    """tokens: [text] item sep item sep ... [text]"""
    out = [txt(0)] if lead else []
    for i, k in enumerate(kinds):
        out.append(const(' '))
        out.append(k(i) if callable(k) else It(k, i))
        if i < len(kinds) - 1:
            out += seps[i](i + 1)
    if tail:
        out += [txt(9, lead=' ')]
    return out


def scenarios(ctx, full=None):
    """tagged lines: all sequences of up to two items (quick; with every separator), of three
    items over all kinds and of four over a reduced set (thorough)"""
    full = ctx.tier == 'thorough' if full is None else full
    S = [f for _n, f in SEP]
    yield make([], [])
    for k in ITEMKINDS:
        for lead, tail in ((1, 1), (0, 0), (1, 0), (0, 1)):
            yield make([k], [], lead, tail)
    for a in ITEMKINDS:
        for b in ITEMKINDS:
            for s in S:
                yield make([a, b], [s])
    for a in REDUCED + (NOYEAR,):
        yield [txt(0, 1), const(' '), a(1) if callable(a) else It(a, 1), txt(9, 2, lead=' ')]
        for b in REDUCED + (NOYEAR,):
            yield make([a, b], [SEMI2])
            if NOYEAR in (a, b):
                for s in S:
                    yield make([a, b], [s])
    for ks in itertools.product(ITEMKINDS if full else REDUCED, repeat=3):
        for ss in ((S[2], S[2]), (S[1], S[2]), (S[2], S[1])) if full else ((S[2], S[2]), (S[2], S[1])):
            yield make(ks, ss)
    if full:
        for ks in itertools.product(REDUCED, repeat=4):
            for ss in itertools.product((S[2], S[1]), repeat=3):
                yield make(ks, ss)
    else:
        for ks in itertools.product(('JOURNAL', 'AUTHstnd', 'REPORTNUMBER'), repeat=4):
            yield make(ks, (S[2], S[2], S[2]))


def words_in(atom):
    return [p[1] for p in parts_of(atom) if not isinstance(p, str)]


def name_of(w):
    return w[1] if isinstance(w, tuple) and len(w) > 1 else str(w)


def expected(tokens):
    """(words in order without those of authors and of the text leading to an author,
        author words, text words leading to an author)"""
    seq, auth, lead = [], [], []
    pend = []
    for t in tokens:
        if isinstance(t, It):
            ws = []
            for k in CONTENT[t.typ]:
                a = t.attrs.get(k)
                if a is not None and a[0] == 'S':
                    ws += words_in(a)
            if t.typ == 'AUTH':
                auth += ws
                lead += pend
            else:
                seq += pend + ws
            pend = []
        elif t[0] == 'S':
            pend += words_in(t)
    return seq + pend, auth, lead


def flat(els):
    out = []
    for e in els:
        out += wnames(e['misc_txt']) if 'misc_txt' in e else []
        if typ(e) in ('YEAR', 'RECID'):
            continue
        for k in CONTENT.get(typ(e), ()):
            if k in e:
                out += wnames(e[k])
    return out


def run_all(ctx, L, gen, judge):
    """run every scenario; judge(tokens, state, citations, counts, excs)"""
    for tokens in gen:
        if ctx.incomplete and 'time budget exhausted' in ctx.incomplete:
            return
        rets, excs = L.parse(tokens)
        for s, c, n in rets:
            if c is None or not all(known(x) for x in c):
                ctx.count('imprecise_results')
                continue
            ctx.count('lines_judged')
            judge(tokens, s, c, n)
        if len(ctx.findings) >= 12:
            return


PRL = 'parse_reference_line'


# ---------------------------------------------------------------------------- C15
def c15(ctx):
    ctx.rule('for every sequence of recognised items and texts in a line, the items and texts of the resulting citations, '
             'concatenated, are those of the line in the same order, each exactly once (authors: at least once)')
    L = Lines(ctx)
    if L.ok:
        def judge(tokens, s, cits, n):
            seq, auth, lead = expected(tokens)
            if not seq and not auth:
                return
            got = [w for c in cits for w in flat(c)]
            skip = set(auth) | set(lead)
            g = [w for w in got if w not in skip]
            d = describe(tokens)
            if g != seq:
                lost = [w for w in seq if w not in g]
                dup = sorted({w for w in g if g.count(w) > 1})
                what = ('%s lost' % ', '.join(map(nm, lost)) if lost else '%s repeated' % ', '.join(map(nm, dup)) if dup else
                        'reordered to %s' % ', '.join(map(nm, g)))
                ctx.report_static('line-items', 'lost' if lost else 'repeated' if dup else 'reordered', PRL,
                                  'line [%s]: %s' % (d, what))
            for w in auth + lead:
                if w not in got:
                    ctx.report_static('line-authors', 'lost', PRL, 'line [%s]: %s lost' % (d, nm(w)))
        run_all(ctx, L, scenarios(ctx), judge)

        def repeated(tokens, s, cits, n):
            """a collaboration named twice: the first mention of each item stays in its place"""
            names = []
            for t in tokens:
                if isinstance(t, It) and t.typ in ('COLLABORATION', 'JOURNAL'):
                    names += [w for k in CONTENT[t.typ] if (t.attrs.get(k) or ('',))[0] == 'S' for w in words_in(t.attrs[k])]
            want = list(dict.fromkeys(names))
            got = list(dict.fromkeys(w for c in cits for w in flat(c) if w in want))
            if got != want:
                lost = [w for w in want if w not in got]
                ctx.report_static('line-items', 'lost' if lost else 'reordered', PRL, 'line [%s]: %s' % (
                    describe(tokens), '%s lost' % ', '.join(map(nm, lost)) if lost else 'reordered to %s' % ', '.join(map(nm, got))))
        run_all(ctx, L, dup_scenarios(ctx), repeated)
    from . import pipeline
    pipeline.c15_lines(ctx)


def nm(w):
    return str(w[-1] if isinstance(w, tuple) else w)


# ---------------------------------------------------------------------------- C19
def dup_scenarios(ctx):
    def same(kind, c):
        w = word('same%d' % c)
        return lambda i: It(kind, i, content=w)
    S = [f for _n, f in SEP]
    for ks in itertools.product((same('COLLABORATION', 0), same('COLLABORATION', 1), 'JOURNAL', 'AUTHstnd'), repeat=3):
        yield make(ks, (S[2], S[2]))
        yield make(ks, (S[0], S[0]))
    for ks in itertools.product((same('COLLABORATION', 0), same('COLLABORATION', 1)), repeat=3):
        yield make(('QUOTED',) + ks, (S[2],) * 3)
    for ks in itertools.product((same('COLLABORATION', 0), 'AUTHetal', 'AUTHstnd'), repeat=4):
        yield make(ks, (S[2],) * 3)


def c19(ctx):
    ctx.rule('for every sequence of recognised items in a line, each citation has at most one author item, one DOI and one record '
             'id, every collaboration once, and the text of surplus authors is in its miscellaneous text')

    def all_linked(L, ip, st, args, kwargs, node):
        return [(st, V(word('recid')))]
    for linker in (None, all_linked):
        L = Lines(ctx, linker=linker)
        if not L.ok:
            return

        def judge(tokens, s, cits, n):
            d = describe(tokens)
            for c in cits:
                ts = [typ(e) for e in c]
                for t, what in (('AUTH', 'author items'), ('DOI', 'DOIs'), ('RECID', 'record ids')):
                    if ts.count(t) > 1:
                        ctx.report_static('one-%s' % t, t, PRL, 'line [%s]: a citation has %d %s' % (d, ts.count(t), what))
                cs = [tuple(wnames(e['collaboration'])) for e in c if typ(e) == 'COLLABORATION' and 'collaboration' in e]
                if len(cs) != len(set(cs)):
                    ctx.report_static('one-COLLABORATION', 'COLLABORATION', PRL, 'line [%s]: a citation repeats a collaboration' % d)
            seq, auth, lead = expected(tokens)
            got = [w for c in cits for w in flat(c)]
            for w in auth:
                if w not in got:
                    ctx.report_static('surplus-author', 'lost', PRL, 'line [%s]: the text of author %s is in no item and no '
                                      'miscellaneous text' % (d, nm(w)))
            for t in tokens:
                if isinstance(t, It) and t.typ in ('DOI', 'COLLABORATION'):
                    for w in words_in(t.attrs[CONTENT[t.typ][0]]):
                        if w not in got:
                            ctx.report_static('first-kept', t.typ, PRL, 'line [%s]: %s is reported in no citation' % (d, nm(w)))
        import itertools as it
        gen = it.chain(dup_scenarios(ctx), scenarios(ctx) if linker is None else ())
        run_all(ctx, L, gen, judge)
        dup_direct(ctx, L)


def dup_direct(ctx, L):
    """the functions that remove duplicates, on citations that do hold duplicates"""
    pass


# ---------------------------------------------------------------------------- C22
NOTKEY = ('', 'type', 'misc_txt', 'recid', 'auth_type', 'is_ibid', 'extra_ibids', 'is_arxiv', 'page_end', 'url_desc')


def content_key(els):
    """the words that identify an item (not its type or the text before it)"""
    ks = []
    for k in sorted(els):
        if k not in NOTKEY:
            ks += wnames(els[k])
    if not ks and 'misc_txt' in els:
        return ('misc',) + tuple(wnames(els['misc_txt']))
    return tuple(ks)


def dict_of(st, v):
    a = single(v)
    if a is None or a[0] != 'R' or a[1] not in st.heap or st.heap[a[1]].kind != 'dict':
        return None
    d = {k[2]: e[0] for k, e in st.heap[a[1]].ent.items() if k[0] == 'C'}
    d[''] = a[1]
    return d


def c22(ctx):
    ctx.rule('the linking callback is called with every item of every resulting citation, the first link in a citation becomes its '
             'record id, missing-key and missing-index failures count as no link, and no link means no record id')
    modes = ('none', 'all', 'KeyError', 'IndexError', 'JOURNAL', 'REPORTNUMBER', 'AUTH', 'YEAR', 'QUOTED')

    def linker(mode):
        def f(L, ip, st, args, kwargs, node):
            d = dict_of(st, args[0]) if len(args) == 1 and not kwargs else None
            L.calls.append((d, ip.where(node), len(args)))
            if mode in ('KeyError', 'IndexError'):
                ip.raise_(st, mode, 'user', node)
                return []
            if d is None:
                return [(st, V(top(ip.svn(node, 'link'))))]
            if mode == 'all' or (mode != 'none' and typ(d) == mode):
                return [(st, V(word('rec:' + '+'.join(nm(w) for w in content_key(d)))))]
            return [(st, cst(None))]
        return f
    S = [f for _n, f in SEP]

    def gen(mode):
        for k in ITEMKINDS:
            yield make([k], [])
        kinds = ITEMKINDS if ctx.tier == 'thorough' or mode == 'all' else REDUCED
        for a, b in itertools.product(kinds, repeat=2):
            yield make([a, b], [S[2]])
            yield make([a, b], [S[1]])
        if ctx.tier == 'thorough' or mode == 'all':
            for ks in itertools.product(REDUCED, repeat=3):
                yield make(ks, [S[2], S[2]])
    for mode in modes:
        L = Lines(ctx, linker=linker(mode))
        if not L.ok:
            return

        def judge(tokens, s, cits, n):
            d = '%s; callback: %s' % (describe(tokens), mode)
            keys = set()
            oids = set()
            unknown = False
            for x, where, na in L.calls:
                if x is None:
                    unknown = True
                else:
                    keys.add(content_key(x))
                    oids.add(x[''])
            for c in cits:
                items = [e for e in c if typ(e) != 'RECID']
                rec = [e for e in c if typ(e) == 'RECID']
                for e in items:
                    if not unknown and e[''] not in oids and content_key(e) not in keys:
                        ctx.report_static('link-every-item', typ(e), PRL, 'line [%s]: the callback is not called for %s' % (d, show_el(e)))
                want = None
                for e in items:
                    t = 'AUTH' if 'auth_txt' in e else typ(e)
                    if mode == 'all' or t == mode:
                        want = word('rec:' + '+'.join(nm(w) for w in content_key(e)))
                        break
                got = [single(e['recid']) for e in rec if 'recid' in e]
                if want is None and rec:
                    ctx.report_static('link-none', mode, PRL, 'line [%s]: a citation without a link has record id %s' % (d, [show_el(e) for e in rec]))
                if want is not None and not rec:
                    ctx.report_static('link-lost', mode, PRL, 'line [%s]: the link found is not reported' % d)
                if want is not None and rec and got and got[0] is not None and got[0] != want:
                    # surplus authors become text: their link may be identified differently
                    ctx.report_static('link-first', mode, PRL, 'line [%s]: record id is %s, the first link is %s' % (
                        d, show_el(rec[0]), words_in(want)))
        for tokens in gen(mode):
            rets, excs = L.parse(tokens)
            for s, e in excs:
                if mode in ('KeyError', 'IndexError') and e.cls == mode and e.kind == 'user':
                    ctx.report_static('link-failure', mode, e.site, 'a %s raised by the callback aborts the line' % mode)
            for s, c, n in rets:
                if c is None or not all(known(x) for x in c):
                    ctx.count('imprecise_results')
                    continue
                ctx.count('lines_judged')
                judge(tokens, s, c, n)
            if len(ctx.findings) >= 12:
                return
    # without a callback
    L = Lines(ctx)
    for k in ITEMKINDS:
        rets, excs = L.parse(make([k], []))
        for s, e in excs:
            if e.kind == 'none':
                ctx.report_static('link-absent', e.site, e.site, 'without a callback parsing fails: %s' % e.cls)
        for s, c, n in rets:
            for x in c or ():
                if any(typ(e) == 'RECID' for e in x):
                    ctx.report_static('link-absent', k, PRL, 'a record id is reported although no callback was given')


# ---------------------------------------------------------------------------- C23
def c23(ctx):
    ctx.rule('for every sequence of items in a line, the count of each kind equals the number of items of that kind; the totals '
             'reported for several lines are the sums of the counts of each line')
    L = Lines(ctx)
    if L.ok:
        def judge(tokens, s, els, n):
            want = dict(misc=0, title=0, reportnum=0, url=0, doi=0, auth_group=0)
            its = [t for t in tokens if isinstance(t, It)]
            for t in its:
                k = {'JOURNAL': 'title', 'REPORTNUMBER': 'reportnum', 'URL': 'url', 'DOI': 'doi', 'AUTH': 'auth_group'}.get(t.typ)
                if k:
                    want[k] += 1
            want['misc'] = sum(1 for t in els if typ(t) == 'MISC')
            d = describe(tokens)
            ctx.count('lines_judged')
            for k, w in want.items():
                if n is None or k not in n:
                    ctx.count('imprecise_results')
                    continue
                if n[k] is not None and n[k] != w:
                    ctx.report_static('line-count', k, 'line parser', 'line [%s]: %s counted %s times, recognised %d times' % (d, k, n[k], w))
        for tokens in scenarios(ctx):
            rets, excs = L.items(tokens)
            for s, els, n in rets:
                if els is None or not known(els):
                    ctx.count('imprecise_results')
                    continue
                judge(tokens, s, els, n)
            if len(ctx.findings) >= 12:
                break
    from . import pipeline
    pipeline.c23_totals(ctx)


# ---------------------------------------------------------------------------- C11
TAG = re.compile(r'<(/?)cds\.([A-Za-z0-9_]+)( ?/)?>')


class Vocabulary(Monitor):
    """every tag the recognisers write, and how terms open and close them"""

    def __init__(self, ctx):
        Monitor.__init__(self, ctx)
        self.open, self.close, self.selfc = {}, {}, {}
        self.site = '?'
        self.bad = {}

    def term(self, ps, site=None):
        toks = []
        for p in ps:
            if isinstance(p, str) and '<' in p:
                toks += [(m.group(1), m.group(2), m.group(3)) for m in TAG.finditer(p)]
        for i, (c, n, sc) in enumerate(toks):
            (self.close if c else self.selfc if sc else self.open).setdefault(n, site or self.site)
            if not c and not sc and i + 1 < len(toks):
                c2, n2, _s2 = toks[i + 1]
                if c2 and n2 != n:
                    self.bad.setdefault((n, n2), site or self.site)

    def on_repl(self, ip, st, node, info):
        a = info.get('atom')
        if a and a[0] in ('C', 'S') and parts_of(a):
            self.term(parts_of(a), ip.where(node))


def vocabulary(ctx):
    v = Vocabulary(ctx)
    cur = []

    def hook(a):
        ps = parts_of(a)
        if ps and any(isinstance(p, str) and '<' in p for p in ps):
            v.term(ps, 'tagging')
    dom.STRLOG.append(hook)
    try:
        for root in ('tag_reference_line', 'identify_and_tag_DOI', 'identify_and_tag_URLs'):
            fi = ctx.need(root)
            if fi is None:
                continue

            def setup(ip, s):
                a = [PS('line', ['doc'])]
                if root == 'tag_reference_line':
                    a += [P('kbs'), V(ip.new_dict(s, fi.node, {}))]
                return a, {}
            ctx.run(fi, setup, monitors=[v], maxstates=12)
    finally:
        dom.STRLOG.remove(hook)
    return v


class Raw(It):
    """a tag of the vocabulary around a word"""

    def __init__(self, tag, n, selfclosing=False):
        self.kind, self.n, self.kw = tag, n, {}
        self.doi = self.url = None
        self.attrs = {}
        if selfclosing:
            self.parts = ['<cds.%s />' % tag]
            if tag == 'DOI':
                self.doi = self.w('doi')
                self.body = list(self.doi[1])
            elif tag == 'URL':
                self.url = (self.w('url'), self.w('desc'))
                self.body = list(self.url[0][1])
            else:
                self.body = []
        elif tag in ('JOURNAL', 'JOURNALibid'):
            self.body = list(self.w('c')[1])
            self.parts = ['<cds.%s>' % tag] + self.body + ['</cds.%s>' % tag]
        else:
            self.body = list(self.w('c')[1])
            self.parts = ['<cds.%s>' % tag] + self.body + ['</cds.%s>' % tag]
        self.typ = None


def norm(ps):
    """term text without blanks and parentheses in its constant parts"""
    out = []
    for p in ps:
        if isinstance(p, str):
            p = re.sub(r'[ ()]', '', p)
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        else:
            p = p[1]
        out.append(p)
    return out


def tshow(ps):
    return ''.join(p if isinstance(p, str) else '<%s>' % nm(p[1] if p[0] == 'H' else p) for p in ps)


def conserve(ctx, L, tokens, rule='markup'):
    """all text of the line, and nothing of its tags, is in the items"""
    rets, excs = L.items(tokens)
    want = []
    for t in tokens:
        if isinstance(t, Raw):
            want += t.body
        elif isinstance(t, It):
            for k in CONTENT.get(t.typ, ()):
                if k in t.attrs and (k != 'year' or t.year is not None):
                    want += list(parts_of(t.attrs[k]))
        else:
            want += list(parts_of(t))
    d = describe(tokens)
    for s, els, n in rets:
        if els is None or not known(els):
            ctx.count('imprecise_results')
            continue
        got = []
        for e in els:
            for k in ('misc_txt',) + CONTENT.get(typ(e), ()):
                if k in e and typ(e) != 'RECID':
                    got += list(text(e[k]) or ())
        ctx.count('lines_judged')
        kinds = sorted({t.kind for t in tokens if isinstance(t, It)})
        txtout = [p for p in got if isinstance(p, str) and ('cds' in p or '<' in p or '>' in p)]
        if txtout:
            ctx.report_static(rule + '-left', '+'.join(kinds), 'line parser', 'line [%s]: part of a tag is left in the output: %s' % (d, tshow(got)))
        elif norm(got) != norm(want):
            ctx.report_static(rule + '-text', '+'.join(kinds), 'line parser', 'line [%s]: the items hold %s, the line %s' % (d, tshow(got), tshow(want)))


def c11(ctx):
    ctx.rule('every tag written by a recogniser (collected from all string terms built on any path) has its closing form written, and '
             'is closed by that form')
    ctx.rule('for every tag of this vocabulary, and every ordered pair, the line parser keeps all text of the line and nothing of the tags')
    v = vocabulary(ctx)
    for (a, b), site in sorted(v.bad.items()):
        ctx.report_static('tag-mismatch', '%s %s' % (a, b), site, 'tag %s is closed as %s' % (a, b))
    for n, site in sorted(v.open.items()):
        if n not in v.close:
            ctx.report_static('tag-unclosed', n, site, 'tag %s is written but its closing form never is' % n)
    for n, site in sorted(v.close.items()):
        if n not in v.open:
            ctx.report_static('tag-unopened', n, site, 'closing tag %s is written but its opening form never is' % n)
    ctx.counts['tags_written'] = sorted(v.open) + sorted(n + '/' for n in v.selfc)
    L = Lines(ctx)
    if L.tagged is None:
        return
    tags = [(n, False) for n in sorted(v.open) if n in v.close] + [(n, True) for n in sorted(v.selfc)]
    Z = lambda i, pre='Z', post='Z': mkstr([pre] + list(word('text%d' % i)[1]) + [post])
    for t, sc in tags:
        for lead, tail in itertools.product((True, False), repeat=2):
            conserve(ctx, L, ([Z(0)] if lead else []) + [Raw(t, 0, sc)] + ([Z(1)] if tail else []))
        conserve(ctx, L, [Z(0), const(' '), Raw(t, 0, sc), const(', '), Z(1)])
    for (a, s1), (b, s2) in itertools.product(tags, repeat=2):
        conserve(ctx, L, [Z(0), Raw(a, 0, s1), Z(1), Raw(b, 1, s2), Z(2)])
        conserve(ctx, L, [Z(0), Raw(a, 0, s1), Raw(b, 1, s2), Z(2)])
    for a, b in itertools.product(ITEMKINDS, repeat=2):
        conserve(ctx, L, [Z(0), It(a, 0), Z(1), It(b, 1), Z(2)])
    if ctx.tier == 'thorough':
        for x in itertools.product(tags, repeat=3):
            conserve(ctx, L, [y for i, (t, sc) in enumerate(x) for y in (Z(i), Raw(t, i, sc))] + [Z(5)])
        for x in itertools.product(ITEMKINDS, repeat=3):
            conserve(ctx, L, [y for i, t in enumerate(x) for y in (Z(i), It(t, i))] + [Z(5)])
    rebuilt(ctx, L, tags)
    quoted(ctx, L)


def kwargs_of(fi, have):
    """arguments for the parameters of fi, by name; None if one is not known"""
    a = fi.node.args
    out = {}
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg not in have:
            return None
        out[p.arg] = have[p.arg]
    return out


def rebuilt(ctx, L, tags):
    """an item recognised directly behind a tag: rebuilding the line keeps that tag"""
    ctx.rule('putting a recognised journal, report number or publisher into a line directly behind, or in front of, a tag leaves that '
             'tag intact')
    for name in ('add_tagged_report_number', 'add_tagged_publisher'):
        fi = ctx.fn(name)
        if fi is None:
            continue
        for (t, sc), sep, after in itertools.product(tags, ('', ' '), ('', ')', ' tail')):
            w = word('before')
            pre = ['Z'] + ([] if sc else ['<cds.%s>' % t] + list(w[1])) + (['</cds.%s>' % t] if not sc else ['<cds.%s />' % t])
            item = 'ABC-123'
            line = mkstr(pre + [sep, item, after])
            pos = words.vec(mkstr(pre + [sep]))
            from ..words import unvec
            n = ('N', ('wn', tuple(len(x) for x in pos)), NOL) if len({len(x) for x in pos}) > 1 else const(len(pos[0]))

            def setup(ip, s):
                kb = V(ip.new_dict(s, fi.node, {const(item): (V(ip.new_dict(s, fi.node, {const('repl'): (V(word('repl')), True)}, tag='r')), True)}, tag='kb'))
                have = dict(reading_line=V(line), len_reportnum=cst(len(item)), reportnum=V(word('repl')), startpos=cst(0),
                            true_replacement_index=V(n), extras=cst(0), matched_publisher=cst(item), kb_publishers=kb)
                kw = kwargs_of(fi, have)
                return [], kw
            if kwargs_of(fi, dict.fromkeys(('reading_line', 'len_reportnum', 'reportnum', 'startpos', 'true_replacement_index', 'extras',
                                            'matched_publisher', 'kb_publishers'))) is None:
                break
            rets, excs = ctx.scenario(L.ip, fi, setup, stubs={})
            for s, v in rets:
                a = single(v)
                b = single(a[1][0]) if a is not None and a[0] == 'U' and len(a[1]) == 2 else None
                ps = parts_of(b) if b is not None else None
                if ps is None or not (b[0] == 'C' or words.wordy(b)):
                    ctx.count('imprecise_results')
                    continue
                ctx.count('rebuilds_judged')
                toks = [m.group(0) for p in ps if isinstance(p, str) for m in TAG.finditer(p)]
                want = ['<cds.%s />' % t] if sc else ['<cds.%s>' % t, '</cds.%s>' % t]
                if toks[:len(want)] != want:
                    ctx.report_static('rebuild-tag', '%s %s' % (name, 'self-closing' if sc else 'closing'), fi.qual,
                                      'a %s tag in front of the item is cut: %s becomes %s' % (t, tshow(parts_of(line)), tshow(ps)))


def quoted(ctx, L):
    """items inside quotes: no tag inside the tag of the quotation"""
    fi = ctx.fn('tag_reference_line')
    pf = ctx.fn('process_reference_line')
    wl = ctx.fn('wash_line')
    if fi is None or pf is None or wl is None or 'working_line' not in [a.arg for a in pf.node.args.args]:
        return

    def proc(ip, st, f, args, kwargs, node):
        return [(st, argvals(ip, st, f, args, kwargs).get('working_line', EMPTY))]
    stubs = {wl.qual: lambda ip, st, f, a, k, n: [(st, a[0])], pf.qual: proc}
    for name in ('identify_report_numbers', 'identify_journals', 'identify_publishers', 'identifiy_journals_re', 'remove_and_record_multiple_spaces_in_line',
                 'strip_tags', 'sum_2_dictionaries', 'identify_ibids'):
        f = ctx.fn(name)
        if f is None:
            return
        stubs[f.qual] = {'identify_report_numbers': lambda ip, st, f, a, k, n: [(st, V(('U', (V(ip.new_dict(st, n, {}, tag='a')), V(ip.new_dict(st, n, {}, tag='b')), a[0]))))],
                         'identify_journals': lambda ip, st, f, a, k, n: [(st, V(('U', (V(ip.new_dict(st, n, {}, tag='a')), a[0], V(ip.new_dict(st, n, {}, tag='b'))))))],
                         'identify_publishers': lambda ip, st, f, a, k, n: [(st, V(ip.new_dict(st, n, {}, tag='p')))],
                         'identifiy_journals_re': lambda ip, st, f, a, k, n: [(st, V(ip.new_dict(st, n, {}, tag='j')))],
                         'sum_2_dictionaries': lambda ip, st, f, a, k, n: [(st, V(ip.new_dict(st, n, {}, tag='s')))],
                         'identify_ibids': lambda ip, st, f, a, k, n: [(st, V(('U', (V(ip.new_dict(st, n, {}, tag='i')), a[0]))))],
                         'strip_tags': lambda ip, st, f, a, k, n: [(st, cst('X'))],
                         'remove_and_record_multiple_spaces_in_line': lambda ip, st, f, a, k, n: [(st, V(('U', (V(ip.new_dict(st, n, {}, tag='m')), a[0]))))],
                         }[name]
    W = lambda n: list(word(n)[1])
    for inner in ('arXiv:1207.7214', 'hep-th/9711200', '<cds.DOI />', '<cds.URL />', 'ATLAS-CONF-2012-003', '0-521-09209-0', ''):
        for a, b in (('"', '"'), ('\u201c', '\u201d')):
            line = mkstr(W('t0') + [', ' + a] + W('q0') + [' ' + inner + ' '] + W('q1') + [b + ', '] + W('t1'))

            def setup(ip, s):
                args, kw = L.setup(ip, s)
                o = s.heap[single(args[1])[1]]
                ent = dict(o.ent)
                ent[const('journals')] = (V(ip.new_list(s, fi.node, [V(ip.new_dict(s, fi.node, {}, tag=('j', i))) for i in range(2)], tag='jl')), True)
                ent[const('journals_re')] = (V(ip.new_list(s, fi.node, (), tag='jre')), True)
                s.put(single(args[1])[1], o.but(ent=ent))
                return [V(line), args[1], V(ip.new_dict(s, fi.node, {}, tag='bad'))], {}
            rets, excs = ctx.scenario(L.ip, fi, setup, stubs=stubs)
            for s, v in rets:
                t = single(v)
                t = single(t[1][0]) if t is not None and t[0] == 'U' and t[1] else None
                if t is None or not words.wordy(t):
                    ctx.count('imprecise_results')
                    continue
                ctx.count('quotations_judged')
                depth = []
                for p in parts_of(t):
                    for m in TAG.finditer(p) if isinstance(p, str) else ():
                        if m.group(1):
                            if depth and depth[-1] == m.group(2):
                                depth.pop()
                        else:
                            if depth:
                                ctx.report_static('tag-nested', '%s in %s' % (m.group(2), depth[-1]), fi.qual,
                                                  'the line %s is tagged %s: a tag inside a tag' % (tshow(parts_of(line)), tshow(parts_of(t))))
                            if not m.group(3):
                                depth.append(m.group(2))
