"""The path from reference lines to reported references: rendering (C12), raw text (C13),
options (C14), one-to-one lines (C15, first half), statistics (C23).

The line parser is replaced by a contract that returns a known structure for each line;
line texts and item attributes stay symbolic, so every output string is known as a term."""
import ast
import itertools

from ..common import *  # noqa
from ..common import Monitor, P, PS, argvals, stub_any
from .history import deep_labels, file_kb, kb_types, KINDS

DEFAULT_FMT = '{title} {volume} ({year}) {page}'
SERVICE_FMT = '{title},{volume},{page}'


def term(*name, pre='T', post='Z', labels=()):
    """a non-empty unknown string (constant first and last character)"""
    return ('S', (pre, ('H', ('param',) + name, frozenset(labels)), post))


class Item:
    """one element of a citation: constant fields and symbolic fields"""

    def __init__(self, typ, **fields):
        self.typ = typ
        self.fields = fields

    def build(self, ip, st, node, tag):
        ent = {const('type'): (cst(self.typ), True)}
        f = dict(misc_txt=const(''))
        f.update(self.fields)
        for k, a in f.items():
            if isinstance(a, list):
                v = V(ip.new_list(st, node, (), tag=('it', tag, k)))
            else:
                v = V(a)
            ent[const(k)] = (v, True)
        return V(ip.new_dict(st, node, ent, tag=('it', tag)))


def journal(name, **kw):
    d = {k: term(name, k, pre=k[0].upper(), post=k[-1]) for k in ('title', 'volume', 'year', 'page')}
    d.update(kw)
    return Item('JOURNAL', is_ibid=const(False), extra_ibids=[], **d)


class Line:
    def __init__(self, citations, marker='', counts=None):
        self.citations = citations
        self.marker = marker
        self.counts = counts or {}


COUNTS = ('misc', 'title', 'reportnum', 'url', 'doi', 'auth_group')


def prl_stub(spec, log):
    """contract of the line parser: the structure given for the line it is called with"""
    def f(ip, st, fi, args, kwargs, node):
        d = argvals(ip, st, fi, args, kwargs)
        src = args[0] if args else d.get('ref_line', EMPTY)
        labs = sorted(x for x in labels_of(src) if x in spec)
        log.append((labs, st.fork(), d, ip.where(node)))
        st.setg('prl', (st.g('prl') or ()) + (tuple(labs),))
        if len(labs) != 1:
            return [(st, V(('U', tuple(V(top(ip.svn(node, 'prl', i))) for i in range(4)))))]
        ln = spec[labs[0]]
        cits = []
        for ci, c in enumerate(ln.citations):
            els = [it.build(ip, st, node, (labs[0], ci, ei)) for ei, it in enumerate(c)]
            cits.append(V(ip.new_list(st, node, els, tag=('cit', labs[0], ci))))
        res = V(ip.new_list(st, node, cits, tag=('cits', labs[0])))
        cnt = V(ip.new_dict(st, node, {const(k): (cst(ln.counts.get(k, 0)), True) for k in COUNTS}, tag=('cnt', labs[0])))
        bad = d.get('bad_titles_count')
        if bad is None or any(a[0] == 'C' for a in bad):
            bad = V(ip.new_dict(st, node, {}, tag=('bad', labs[0])))
        return [(st, V(('U', (res, cst(ln.marker), cnt, bad))))]
    return f


def line_atom(i):
    return ('S', (('H', ('param', 'line%d' % i), frozenset(['line%d' % i])),))


def front_stubs(ctx, n):
    """everything before the reference lines: n lines are found"""
    def lines(ip, st, node):
        return V(ip.new_list(st, node, [V(line_atom(i)) for i in range(n)], tag='reflines'))

    def rebuild(ip, st, fi, args, kwargs, node):
        return [(st, lines(ip, st, node))]

    def full(ip, st, fi, args, kwargs, node):
        return [(st, V(('U', (lines(ip, st, node), V(top(ip.svn(node, 'st'))), V(top(ip.svn(node, 'how')))))))]
    out = {}
    for name, stub in (('rebuild_reference_lines', rebuild), ('extract_references_from_fulltext', full),
                       ('get_plaintext_document_body', stub_any(raises=False)),
                       ('get_reference_section_beginning', stub_any(raises=False)),
                       ('find_numeration_in_body', stub_any(raises=False)),
                       ('extract_texkeys_and_urls_from_pdf', stub_any(raises=False))):
        f = ctx.fn(name)
        if f is not None:
            out[f.qual] = stub
    return out


ENV = dict(isfile=True, exists=True, isdir=False)
TXT = dict(env=dict(ENV, http=200), mime_values=('text/plain',))


def refs_of(st, v):
    """list objects a returned value can be: yields list object or None (unknown)"""
    for a in v:
        if a[0] == 'R' and a[1] in st.heap and st.heap[a[1]].kind == 'list':
            yield st.heap[a[1]]
        elif a[0] in ('T', 'XI'):
            yield None
        else:
            yield a


def field(st, ref, key):
    """values of a field of a reference: list of Values, [] if absent, None if unknown"""
    out = None
    for a in ref:
        if a[0] != 'R' or a[1] not in st.heap or st.heap[a[1]].kind != 'dict':
            return None
        o = st.heap[a[1]]
        e = o.ent.get(const(key))
        if e is None:
            if o.restk:
                return None
            r = []
        else:
            r = None
            for b in e[0]:
                if b[0] == 'R' and b[1] in st.heap and st.heap[b[1]].kind == 'list' and not st.heap[b[1]].rest:
                    x = list(st.heap[b[1]].items)
                    if not e[1]:
                        return ('maybe', x)
                    r = x if r is None or r == x else 'differs'
                elif b[0] in ('T', 'XI') or b[0] == 'R':
                    return None
                else:
                    return ('scalar', b)
        if out is not None and out != r:
            return 'differs'
        out = r
    return out


def keys_of(st, ref):
    ks = set()
    for a in ref:
        if a[0] == 'R' and a[1] in st.heap and st.heap[a[1]].kind == 'dict':
            ks |= {k[2] for k in st.heap[a[1]].ent if k[0] == 'C'}
    return ks


def fuzzy(v):
    return any(a[0] in ('T', 'XI') for a in v)


def show(x):
    if isinstance(x, list):
        return '[%s]' % ', '.join(show(v) for v in x)
    if isinstance(x, frozenset):
        return ' or '.join(sorted(show(a) for a in x))
    if isinstance(x, tuple) and x and x[0] == 'C':
        return repr(x[2])
    if isinstance(x, tuple) and x and x[0] == 'S':
        return '+'.join(repr(p) if isinstance(p, str) else '<%s>' % '.'.join(str(y) for y in (p[1][1:] if isinstance(p[1], tuple) and p[1][0] == 'param' else ['...']))
                        for p in x[1])
    return str(x)[:60]


def run_lines(ctx, spec, root='parse_references', kwargs=None, extra=None):
    """run an entry point over len(spec) lines; returns (ip, rets, excs, log)"""
    n = len(spec)
    fi = ctx.need(root)
    prl = ctx.need('parse_reference_line')
    if fi is None or prl is None:
        return None
    log = []
    st = front_stubs(ctx, n)
    st[prl.qual] = prl_stub(spec, log)
    gk = ctx.fn('get_kbs')
    if gk is not None:
        st[gk.qual] = stub_any(raises=False)
    st.update(extra or {})
    st.pop(fi.qual, None)

    def setup(ip, s):
        kw = kwargs(ip, s) if kwargs else {}
        if root in ('parse_references',):
            return [V(ip.new_list(s, fi.node, [V(line_atom(i)) for i in range(n)], tag='in'))], kw
        if root == 'extract_references_from_file':
            return [PS('path', ['path'])], kw
        if root in ('extract_references_from_url', 'extract_references_from_file_url'):
            return [PS('url', ['url'])], kw
        if root == 'extract_references_from_list':
            return [V(ip.new_list(s, fi.node, [PS('ref', ['doc'])], tag='in'))], kw
        return [PS('source', ['doc'])], kw
    ip, rets, excs = ctx.run(fi, setup, stubs=st, maxstates=24, **TXT)
    ctx.count('scenarios')
    return ip, rets, excs, log


def result_lists(root, s, v):
    """the reference list(s) in what an entry point returned"""
    out = []
    for a in v:
        if root == 'parse_references' and a[0] == 'U' and len(a[1]) == 2:
            out += list(refs_of(s, a[1][0]))
        elif root.endswith(('_text', '_file_url', '_list')) and a[0] == 'R' and s.heap[a[1]].kind == 'dict':
            e = s.heap[a[1]].ent.get(const('extracted_references'))
            if e:
                out += list(refs_of(s, e[0]))
        elif a[0] == 'R':
            out += list(refs_of(s, V(a)))
    return [x for x in out if x is not None and not isinstance(x, tuple) and not x.rest]


# ---------------------------------------------------------------------------- C12
def render_cases():
    t = term
    yield 'journal', journal('j'), {'journal_title': [t('j', 'title', pre='T', post='e')], 'journal_volume': [t('j', 'volume', pre='V', post='e')],
                                    'journal_year': [t('j', 'year', pre='Y', post='r')], 'journal_page': [t('j', 'page', pre='P', post='e')],
                                    'journal_reference': 'fmt'}
    yield 'report number', Item('REPORTNUMBER', report_num=t('r')), {'reportnumber': [t('r')]}
    yield 'URL', Item('URL', url_string=t('u'), url_desc=t('u')), {'url': [t('u')]}
    yield 'URL with description', Item('URL', url_string=t('u'), url_desc=t('d', pre='D', post='D')), {'url': [t('u')], 'urldesc': [t('d', pre='D', post='D')]}
    yield 'DOI', Item('DOI', doi_string=t('d')), {'doi': [mkstr(['doi:'] + list(t('d')[1]))]}
    yield 'handle', Item('HDL', hdl_id=t('h')), {'hdl': [mkstr(['hdl:'] + list(t('h')[1]))]}
    for at in ('stnd', 'etal'):
        yield 'author (%s)' % at, Item('AUTH', auth_txt=t('a'), auth_type=const(at)), {'author': [t('a')]}
    yield 'author (incl)', Item('AUTH', auth_txt=t('a'), auth_type=const('incl')), {'author': [mkstr(['('] + list(t('a')[1]) + [')'])]}
    yield 'quoted title', Item('QUOTED', title=t('q')), {'title': [t('q')]}
    yield 'book', Item('BOOK', title=t('b'), authors=t('ba'), year=t('by')), {'title': [t('b')]}
    yield 'ISBN', Item('ISBN', ISBN=t('i')), {'isbn': [t('i')]}
    yield 'publisher', Item('PUBLISHER', publisher=t('p')), {'publisher': [t('p')]}
    yield 'year', Item('YEAR', year=t('y')), {'year': [t('y')]}
    yield 'collaboration', Item('COLLABORATION', collaboration=t('c')), {'collaboration': [t('c')]}
    yield 'record id', Item('RECID', recid=t('id')), {'recid': [t('id')]}
    yield 'miscellaneous', Item('MISC', misc_txt=t('m')), {'misc': [t('m')]}


def rendered(ctx, rule, name, s, ref, want, raw):
    """compare the reference dictionary with what is expected"""
    want = dict(want)
    want['raw_ref'] = [raw]
    ctx.count('fields_checked', len(want))
    for k, w in want.items():
        got = field(s, ref, k)
        if got is None or got == 'differs':
            continue
        if isinstance(got, tuple):
            if got[0] == 'maybe':
                ctx.report_static(rule, '%s %s' % (name, k), 'reference builder', '%s: field %s is reported on some paths only' % (name, k))
            else:
                ctx.report_static(rule, '%s %s' % (name, k), 'reference builder', '%s: field %s is not a list' % (name, k))
            continue
        exp = [V(a) for a in w]
        if got != exp and not any(fuzzy(v) for v in got):
            if len(got) == len(exp) and any(opaque_str(g) for g in got):
                continue
            ctx.report_static(rule, '%s %s' % (name, k), 'reference builder', '%s: field %s is %s, expected %s' % (
                name, k, show(got), show(exp)))
    extra = keys_of(s, ref) - set(want) - {'linemarker'}
    for k in sorted(extra):
        got = field(s, ref, k)
        if got:
            ctx.report_static(rule, '%s %s' % (name, k), 'reference builder', '%s: unexpected field %s' % (name, k))


def opaque_str(v):
    """a string the analysis lost track of (not a term over the inputs)"""
    for a in v:
        if a[0] == 'S':
            for p in a[1]:
                if not isinstance(p, str) and not (isinstance(p[1], tuple) and p[1] and p[1][0] == 'param'):
                    return True
    return False


def fmt_term(fmt, item):
    parts = []
    import string
    for lit, name, _s, _c in string.Formatter().parse(fmt):
        parts.append(lit)
        if name:
            parts += list(item.fields[name][1])
    return mkstr(parts)


def c12(ctx):
    ctx.rule('every kind of item, alone and together with a second item of the same and of another kind, is rendered under its '
             'own field with its own value (output strings compared as terms over the symbolic attributes)')
    cases = list(render_cases())
    for name, it, want in cases:
        w = {k: ([fmt_term(DEFAULT_FMT, it)] if v == 'fmt' else v) for k, v in want.items()}
        one(ctx, name, [it], w)
    # an item followed by each other item: fields add up, in order
    reps = [c for c in cases if c[0] in ('journal', 'report number', 'URL', 'DOI', 'author (stnd)', 'quoted title', 'miscellaneous', 'ISBN')]
    for (n1, i1, w1), (n2, i2, w2) in itertools.product(reps, repeat=2):
        if n1 == n2:
            i2 = Item(i2.typ, **{k: (retag(a) if isinstance(a, tuple) else a) for k, a in i2.fields.items()})
            w2 = {k: (v if v == 'fmt' else [retag(a) for a in v]) for k, v in w2.items()}
        w = {}
        for it, ww in ((i1, w1), (i2, w2)):
            for k, v in ww.items():
                w.setdefault(k, []).extend([fmt_term(DEFAULT_FMT, it)] if v == 'fmt' else v)
        one(ctx, '%s then %s' % (n1, n2), [i1, i2], w)
    # miscellaneous text in front of an item
    for name, it, want in cases:
        if it.typ == 'MISC':
            continue
        w = {k: ([fmt_term(DEFAULT_FMT, it)] if v == 'fmt' else v) for k, v in want.items()}
        w['misc'] = [term('m')]
        one(ctx, 'text before %s' % name, [Item(it.typ, **dict(it.fields, misc_txt=term('m')))], w)
    attributes(ctx)


def retag(a):
    if a[0] != 'S':
        return a
    return mkstr([p if isinstance(p, str) else ('H', p[1] + ('second',), p[2]) for p in a[1]])


def one(ctx, name, items, want):
    if not all(ctx.reads(k) for it in items for k in it.fields if k not in ('is_ibid', 'extra_ibids', 'authors', 'url_desc')):
        ctx.count('cases_not_judged')
        return
    r = run_lines(ctx, {'line0': Line([items])})
    if r is None:
        return
    ip, rets, excs, log = r
    for s, e in excs:
        if e.kind in ('none', 'key!', 'unbound', 'index!', 'user', 'undef', 'attr'):
            ctx.report_static('render-fails', '%s %s' % (name, e.site), e.site, '%s: rendering raises %s' % (name, e.cls))
    for s, v in rets:
        for o in result_lists('parse_references', s, v):
            if len(o.items) != 1:
                ctx.report_static('render-count', name, 'reference builder', '%s: %d references instead of one' % (name, len(o.items)))
                continue
            rendered(ctx, 'render', name, s, o.items[0], want, line_atom(0))


REQUIRED = {
    'JOURNAL': ('misc_txt', 'title', 'volume', 'year', 'page'),
    'REPORTNUMBER': ('misc_txt', 'report_num'), 'URL': ('misc_txt', 'url_string', 'url_desc'),
    'DOI': ('misc_txt', 'doi_string'), 'HDL': ('misc_txt', 'hdl_id'), 'AUTH': ('misc_txt', 'auth_txt', 'auth_type'),
    'QUOTED': ('misc_txt', 'title'), 'BOOK': ('misc_txt', 'title'), 'ISBN': ('misc_txt', 'ISBN'),
    'PUBLISHER': ('misc_txt', 'publisher'), 'YEAR': ('misc_txt', 'year'), 'COLLABORATION': ('misc_txt', 'collaboration'),
    'RECID': ('misc_txt', 'recid'), 'MISC': ('misc_txt',),
}


def attributes(ctx):
    from . import lines as ln
    from .. import words
    ctx.rule('every item built from a tagged line, and every item added or retyped later, has the attributes the later stages read for '
             'its kind, holding the text of its own tag')
    L = ln.Lines(ctx)
    if not L.ok:
        return
    It, txt, typ = ln.It, ln.txt, ln.typ

    def vals(e, want):
        """attributes that are known to differ"""
        for k, a in want.items():
            if not ctx.reads(k):
                continue        # the attribute has another name in this tree
            if k not in e:
                yield k, 'missing'
                continue
            v = e[k]
            b = single(v)
            if v == V(a) or b is None or b[0] == 'T' or b[0] == 'S' and not words.wordy(b):
                continue
            yield k, show(v)

    def complete(name, e):
        for k in REQUIRED.get(typ(e), ()):
            ctx.count('attributes_checked')
            if k not in e and ctx.reads(k):
                ctx.report_static('attribute-missing', '%s %s' % (typ(e), k), 'line parser', 'line %s: a %s item without %s' % (name, typ(e), k))

    def raised(name, excs):
        for s, e in excs:
            if e.kind == 'key!':
                ctx.report_static('attribute-read', e.site, e.site, 'line %s: an attribute that is not there is read' % name)

    # the items of every tag
    for k in ln.ITEMKINDS:
        for lead, tail in ((1, 1), (0, 0)):
            it = It(k, 0)
            toks = ([txt(0), const(' ')] if lead else []) + [it] + ([txt(9, lead=' ')] if tail else [])
            out, excs = L.items(toks)
            raised(ln.describe(toks), excs)
            for s, els, _n in out:
                if els is None:
                    ctx.count('imprecise_results')
                    continue
                mine = [e for e in els if typ(e) == it.typ]
                ctx.count('items_judged')
                if len(mine) != 1:
                    ctx.report_static('item', k, 'line parser', 'a %s tag gives items %s' % (k, [typ(e) for e in els]))
                    continue
                for a, v in vals(mine[0], it.attrs):
                    ctx.report_static('item-value', '%s %s' % (k, a), 'line parser', 'a %s tag: attribute %s is %s' % (k, a, v))
                for e in els:
                    complete(ln.describe(toks), e)
    # everything that leaves the line parser
    for toks in ln.scenarios(ctx, False):
        if sum(isinstance(t, It) for t in toks) > 2:
            continue
        out, excs = L.parse(toks)
        raised(ln.describe(toks), excs)
        for s, cits, _n in out:
            for c in cits or ():
                for e in c:
                    complete(ln.describe(toks), e)
    # items added or retyped by later stages
    url = It('URL', 0)
    url.url = (const('http://hdl.handle.net/2027/abc.12'), const('http://hdl.handle.net/2027/abc.12'))
    arx = It('URL', 0)
    arx.url = (const('http://arxiv.org/abs/1234.56789'), const('http://arxiv.org/abs/1234.56789'))
    j = It('JOURNAL', 0)

    def book(ip, s):
        row = V(ip.new_list(s, L.fi.node, [cst('Book Author'), cst('Some Book'), cst('1990;')], tag='row'))
        return V(ip.new_dict(s, L.fi.node, {const('SOME BOOK'): (row, True)}, tag='books'))
    q = It('QUOTED', 0, content=const('Some Book'))
    q.attrs = {}
    cases = (('a handle URL', [url], 'HDL', dict(hdl_id=const('2027/abc.12')), {}),
             ('an arXiv URL', [arx], 'REPORTNUMBER', dict(report_num=const('arXiv:1234.56789')), {}),
             ('a journal with a year', [j], 'YEAR', dict(year=j.year), {}),
             ('a year in the text', [It('REPORTNUMBER', 1), const(' text (1998) text')], 'YEAR', dict(year=const('1998')), {}),
             ('a handle in the text', [const('text hdl:2027/abc.12 text ')], 'HDL', dict(hdl_id=const('2027/abc.12')), {}),
             ('a handle before an item', [const('text hdl:2027/abc.12 text '), It('REPORTNUMBER', 1)], 'HDL', dict(hdl_id=const('2027/abc.12')), {}),
             ('a known book', [q, const(' '), It('REPORTNUMBER', 1)], 'BOOK', dict(title=const('Some Book')), dict(books=book)))
    for name, toks, ty, want, kbs in cases:
        L.kbs = kbs
        out, excs = L.parse([txt(0), const(' ')] + toks + [txt(9, lead=' ')])
        raised(name, excs)
        for s, cits, _n in out:
            if cits is None:
                ctx.count('imprecise_results')
                continue
            els = [e for c in cits for e in c if typ(e) == ty]
            ctx.count('items_judged')
            if len(els) != 1:
                ctx.report_static('added-item', name, 'line parser', '%s: %d %s items' % (name, len(els), ty))
                continue
            for a, v in vals(els[0], want):
                ctx.report_static('added-item-value', '%s %s' % (name, a), 'line parser', '%s: attribute %s of the %s item is %s' % (name, a, ty, v))
            for c in cits:
                for e in c:
                    complete(name, e)
    L.kbs = None


# ---------------------------------------------------------------------------- several lines
ROOTS = ('parse_references', 'extract_references_from_string', 'extract_references_from_file', 'extract_references_from_url',
         'extract_references_from_text', 'extract_references_from_file_url')


TAIL = ' Mixed CASE,\tx  y\u00a0z\x00 &amp; \ufb01n \u00df \u2019 http: //a. b/c [1]. \r.  \n '


def wline(i, tail='  '):
    """a line: spaces around an unknown text (cleaning changes it)"""
    return mkstr(['  ', ('H', ('word', 'line%d' % i), frozenset(['line%d' % i])), tail])


def wterm(*name):
    from ..words import word
    return word('.'.join(str(x) for x in name))


def simple(i, j=0):
    return Item('REPORTNUMBER', report_num=wterm('rep', i, j))


def wjournal(*n, **kw):
    d = {k: wterm(k, *n) for k in ('title', 'volume', 'year', 'page')}
    d.update(kw)
    return Item('JOURNAL', is_ibid=const(False), extra_ibids=[], **d)


class Pipe:
    """one session per entry point: known lines with known citations"""

    def __init__(self, ctx, root, **kw):
        self.ctx = ctx
        self.root = root
        self.fi = ctx.need(root)
        self.prl = ctx.need('parse_reference_line')
        self.ok = self.fi is not None and self.prl is not None
        if not self.ok:
            return
        self.tail = kw.pop('tail', '  ')
        self.variant = kw.pop('variant', None)
        self.kw = dict(TXT, **kw)
        self.ip = ctx.session(maxstates=24, words=True, **self.kw)

    def run(self, spec, kwargs=None, extra=None, source=None):
        ctx = self.ctx
        n = len(spec)
        self.log = []

        def lines(ip, st, node):
            return V(ip.new_list(st, node, [V(wline(i, self.tail)) for i in range(n)], tag='reflines'))

        st = front_stubs(ctx, n)
        for q, f in list(st.items()):
            if f.__name__ == 'rebuild':
                st[q] = lambda ip, s, fi, a, k, node: [(s, lines(ip, s, node))]
            elif f.__name__ == 'full':
                def full(ip, s, fi, a, k, node):
                    first = self.variant == 'second pass' and not s.g('full')
                    s.setg('full', True)
                    ls = V(ip.new_list(s, node, [], tag='noreflines')) if first else lines(ip, s, node)
                    return [(s, V(('U', (ls, V(top(ip.svn(node, 'st'))), V(top(ip.svn(node, 'how')))))))]
                st[q] = full
        st[self.prl.qual] = prl_stub(spec, self.log)
        self.kblog = []
        gk = ctx.fn('get_kbs')
        if gk is not None:
            def kbs(ip, s, fi, args, kwargs, node):
                self.kblog.append((s.fork(), argvals(ip, s, fi, args, kwargs), ip.where(node)))
                return [(s, V(top(ip.svn(node, 'kbs'), frozenset(['kbs']))))]
            st[gk.qual] = kbs
        st.update(extra or {})
        st.pop(self.fi.qual, None)
        fi, root = self.fi, self.root

        def setup(ip, s):
            kw = kwargs(ip, s) if kwargs else {}
            if self.variant == 'full text':
                kw = dict(kw, is_only_references=cst(False))
            if root == 'parse_references':
                return [lines(ip, s, fi.node)], kw
            if root == 'extract_references_from_list':
                return [V(ip.new_list(s, fi.node, [V(wline(i, self.tail)) for i in range(source or 1)], tag='in'))], kw
            return [PS('source', ['doc'])], kw
        self.rets, self.excs = ctx.scenario(self.ip, fi, setup, stubs=st)
        return self.rets

    def refs(self):
        """(state, list of references) where known"""
        for s, v in self.rets:
            for o in result_lists(self.root, s, v):
                yield s, o.items


def variants(root):
    """other ways through an entry point to the reference lines"""
    if root in ('extract_references_from_file', 'extract_references_from_url', 'extract_references_from_file_url'):
        return [None, 'second pass']
    return [None, 'full text'] if root == 'extract_references_from_string' else [None]


def service_args(root):
    def f(ip, s):
        return {'journal_kb_data': V(ip.new_dict(s, ip.prog.find(root).node, {}, tag='kb'))} if root.endswith(('_text', '_file_url', '_list')) else {}
    return f


def specs(maxlines):
    """0-3 lines with 0-3 citations each"""
    shapes = [()]
    for n in range(1, maxlines + 1):
        shapes += list(itertools.product((1, 2, 0) if n < 3 else (1, 2), repeat=n))
    shapes += [(3,), (3, 3)]
    for sh in shapes:
        yield sh, {'line%d' % i: Line([[simple(i, j)] for j in range(k)], marker=('[%d]' % (i + 1), ' ', '')[(i + len(sh)) % 3]) for i, k in enumerate(sh)}


def c15_lines(ctx):
    ctx.rule('each reference line is given to the line parser exactly once, in order, and the references of all lines appear in order')
    ctx.rule('rebuilding broken lines puts the text of every input line into exactly one reference, in order, including the last')
    for root, variant in [(r, v) for r in ROOTS for v in variants(r)]:
        p = Pipe(ctx, root, variant=variant)
        if not p.ok:
            continue
        for sh, spec in specs(3 if ctx.tier == 'thorough' or root in ROOTS[:2] else 2):
            p.run(spec, service_args(root))
            if variant and not sh:
                continue
            name = '%s%s, lines with %s citations' % (root, variant and ' (%s)' % variant or '', list(sh))
            want = ['line%d' % i for i in range(len(sh))]
            wref = [V(wterm('rep', i, j)) for i, k in enumerate(sh) for j in range(k)]
            for s, items in p.refs():
                calls = [c[0] if len(c) == 1 else None for c in s.g('prl') or ()]
                if None not in calls and sorted(calls) != sorted(want):
                    twice = [w for w in want if calls.count(w) > 1]
                    ctx.report_static('line-once', 'twice' if twice else 'skipped', root, '%s: lines parsed: %s' % (name, calls))
                got = []
                for r in items:
                    f = field(s, r, 'reportnumber')
                    got.append(f[0] if isinstance(f, list) and len(f) == 1 else None)
                ctx.count('sequences_judged')
                if len(got) != len(wref) or any(g is not None and g != w and not fuzzy(g) for g, w in zip(got, wref)):
                    if any(g is None or fuzzy(g) for g in got) and len(got) == len(wref):
                        continue
                    ctx.report_static('line-order', 'references', root, '%s: references are %s, expected %s' % (
                        name, show([g or EMPTY for g in got]), show(wref)))
    rebuild(ctx)


MARK = r'^\s*(?P<mark>\[\s*(?P<marknum>\d+)\s*\])'


def rebuild(ctx):
    from .. import words
    fi = ctx.fn('rebuild_reference_lines')
    if fi is None:
        ctx.incomplete.append('rebuild_reference_lines not found')
        return
    ip = ctx.session(maxstates=24, words=True)
    mx = max_lines(ctx)
    W = lambda i: mkstr((list(wterm('l', i)[1]) if i < 8 or mx and i >= mx - 2 else ['Filler']) + ['-' if i == 2 else 'Z'])
    kinds = {
        'numbered': (cst(MARK), lambda i, k: mkstr(['[%d] ' % i] + list(W(k)[1])), lambda k: W(k)),
        'numbered inside lines': (cst(MARK.replace('^', '')), lambda i, k: mkstr(['See [%d] ' % i] + list(W(k)[1])) if k % 2 else
                                  mkstr(list(wterm('before', k)[1]) + ['Z [%d] ' % i] + list(W(k)[1])), lambda k: W(k)),
        'blank lines': (cst(r'^\s*$'), lambda i, k: const(''), lambda k: W(k)),
        'none': (NONE, lambda i, k: W(k), lambda k: mkstr(['    '] + list(W(k)[1]))),
    }
    n = 5 if ctx.tier == 'thorough' else 4
    for kind, (ptn, start, cont) in kinds.items():
        for ln in list(range(0, n + 1)) + ([mx + 1] if mx else []):
            # short sections with every choice of starting lines; a reference of the maximal length and one more
            for starts in (itertools.product((True, False), repeat=ln) if ln <= n else
                           [(kind != 'blank lines',) + (False,) * (ln - 2) + (True,)]):
                lines = []
                m = 0
                for k, b in enumerate(starts):
                    if b:
                        m += 1
                        lines.append(start(m, k))
                    else:
                        lines.append(cont(k))

                def setup(ip, s):
                    return [V(ip.new_list(s, fi.node, [V(a) for a in lines], tag='sect')), ptn], {}
                rets, excs = ctx.scenario(ip, fi, setup, stubs={})
                want = [p[1] for a in lines for p in parts_of(a) if not isinstance(p, str)]
                for s, v in rets:
                    for o in refs_of(s, v):
                        if o is None or isinstance(o, tuple) or o.rest:
                            continue
                        got = []
                        for x in o.items:
                            a = single(x)
                            if a is None or not (a[0] == 'C' or words.wordy(a)):
                                got = None
                                break
                            got += [p[1] for p in parts_of(a) if not isinstance(p, str)]
                        if got is None:
                            ctx.count('imprecise_results')
                            continue
                        ctx.count('sections_judged')
                        if got != want:
                            lost = [w for w in want if w not in got]
                            ctx.report_static('rebuild', 'lost' if lost else 'order', fi.qual, 'section of %d lines (%s), starts of references %s: %s' % (
                                ln, kind, [i for i, b in enumerate(starts) if b],
                                'text of line %s lost' % ', '.join(str(w[1]) for w in lost) if lost else 'text repeated or reordered'))


def max_lines(ctx):
    """the configured maximum of lines per reference, if it is a plain constant"""
    for rel, f in ctx.prog.modules.items():
        for n in f.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    n.targets[0].id == 'CFG_REFEXTRACT_MAX_LINES' and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
                return n.value.value if 0 < n.value.value < 100 else None
    return None


# ---------------------------------------------------------------------------- C13
def c13(ctx):
    ctx.rule('through every entry point, each reference has a raw text field holding exactly one string, which is the term of the '
             'line it was parsed from (not a cleaned or tagged version of it)')
    for root, tail, variant in [(r, t, v) for r in ROOTS + ('extract_references_from_list',) for v in variants(r) for t in ('  ', TAIL)] + [
            ('parse_references', t, None) for t in ('x ' * 20000, '.\n', '.')]:
        p = Pipe(ctx, root, tail=tail, variant=variant)
        if not p.ok:
            continue
        for sh, spec in specs(2):
            if tail != '  ' and sh not in ((1,), (2, 1)) or len(tail) > 999 and sh != (1,):
                continue
            if root == 'extract_references_from_list' and len(sh) != 1:
                continue
            p.run(spec, service_args(root))
            for s, items in p.refs():
                k = 0
                owner = [i for i, m in enumerate(sh) for _ in range(m)]
                if root == 'extract_references_from_list':
                    owner = owner[:1]
                for r, i in zip(items, owner):
                    if len(items) != len(owner):
                        break
                    f = field(s, r, 'raw_ref')
                    ctx.count('references_judged')
                    if f is None or f == 'differs':
                        ctx.count('imprecise_results')
                        continue
                    if isinstance(f, tuple) or len(f) != 1:
                        ctx.report_static('raw-one', root, root, '%s: the raw text field of a reference is not exactly one string on every path' % root)
                    elif f[0] != V(wline(i, tail)) and not fuzzy(f[0]):
                        ctx.report_static('raw-verbatim', root, root, '%s: the raw text is %.600s, the line is %.600s' % (root, show(f[0]), show(V(wline(i, tail)))))


# ---------------------------------------------------------------------------- C23, totals
def c23_totals(ctx):
    p = Pipe(ctx, 'parse_references')
    if not p.ok:
        return
    names = dict(misc='misc', title='title', reportnum='reportnum', url='url', doi='doi', auth_group='author')
    vec = [dict(misc=1, title=2, reportnum=3, url=5, doi=7, auth_group=11), dict(misc=1, title=20, reportnum=30, url=50, doi=70, auth_group=110),
           dict(misc=100, title=200, reportnum=300, url=500, doi=700, auth_group=1100)]
    cases = [[]]
    for n in (1, 2, 3):
        cases += [list(c) for c in itertools.product(vec + [{}], repeat=n)]
    for case in cases:
        spec = {'line%d' % i: Line([[simple(i)]], counts=c) for i, c in enumerate(case)}
        p.run(spec)
        for s, v in p.rets:
            for a in v:
                if a[0] != 'U' or len(a[1]) != 2:
                    continue
                for b in a[1][1]:
                    if b[0] != 'R' or b[1] not in s.heap or s.heap[b[1]].kind != 'dict':
                        continue
                    o = s.heap[b[1]]
                    ctx.count('totals_judged')
                    for k, nm in names.items():
                        e = o.ent.get(const(nm))
                        w = sum(c.get(k, 0) for c in case)
                        if e is None:
                            if not o.restk:
                                ctx.report_static('total', nm, 'statistics', 'no total for %s' % nm)
                        elif is_const(e[0]) and getc(e[0]) != w:
                            ctx.report_static('total', nm, 'statistics', '%d lines with %s: %s; total reported %s, sum %d' % (
                                len(case), k, [c.get(k, 0) for c in case], getc(e[0]), w))


# ---------------------------------------------------------------------------- C14
FMTS = (None, '{title},{volume},{page}', '<{page}|{title}>')
API = ('parse_references', 'extract_references_from_string', 'extract_references_from_file', 'extract_references_from_url')
SERVICE = ('extract_references_from_text', 'extract_references_from_file_url', 'extract_references_from_list')


def c14(ctx):
    ctx.rule('through every entry point, for every combination of given and omitted options: journal references are rendered by the '
             'format given (default otherwise) from their own attributes, the line parser receives the callback given (none '
             'otherwise) and knowledge bases loaded with exactly the overrides given')
    for root, variant in [(r, v) for r in API + SERVICE + ('extract_journal_reference', 'extract_journal_info') for v in variants(r)]:
        p = Pipe(ctx, root, variant=variant, extstubs=dict(refx_linker=lambda ip, st, a, k, n: [(st, NONE)]))
        if not p.ok:
            continue
        node = p.fi.node
        if root in API:
            combos = itertools.product(FMTS, (False, True), (False, True))
        else:
            combos = [(SERVICE_FMT, False, True)]
        for fmt, link, over in combos:
            def kwargs(ip, s):
                kw = {}
                if root in API:
                    if fmt is not None:
                        kw['reference_format'] = cst(fmt)
                    if link:
                        kw['linker_callback'] = V(('X', 'refx_linker'))
                    if over:
                        kw['override_kbs_files'] = V(ip.new_dict(s, node, {const('journals'): (PS('override', ['override']), True)}, tag='over'))
                elif root == 'extract_journal_reference':
                    kw['override_kbs_files'] = V(ip.new_dict(s, node, {const('journals'): (PS('override', ['override']), True)}, tag='over'))
                else:
                    kw['journal_kb_data'] = PS('override', ['override'])
                return kw
            js = [wjournal(i) for i in range(2)]
            spec = {'line%d' % i: Line([[js[i]]]) for i in range(2)}
            name = '%s%s(format %r, callback %s, overrides %s)' % (root, variant and ' [%s]' % variant or '', fmt, 'given' if link else 'omitted', 'given' if over else 'omitted')
            if root in ('extract_journal_reference', 'extract_journal_info'):
                p.run(spec, kwargs, source=1) if root == 'extract_journal_reference' else journal_info(p, spec, kwargs)
            else:
                p.run(spec, kwargs)
            ctx.count('option_combinations')
            c14_judge(ctx, p, root, name, fmt, link, over, js)


def journal_info(p, spec, kwargs):
    fi = p.fi

    def setup(ip, s):
        kw = kwargs(ip, s)
        d = V(ip.new_dict(s, fi.node, {const('pubinfo_freetext'): (V(wline(0)), True)}, tag='pi'))
        return [V(ip.new_list(s, fi.node, [d], tag='pis'))], kw
    st = {p.prl.qual: prl_stub(spec, p.log if hasattr(p, 'log') else [])}
    p.log = []
    p.kblog = []
    st[p.prl.qual] = prl_stub(spec, p.log)
    gk = p.ctx.fn('get_kbs')
    if gk is not None:
        def kbs(ip, s, fi, args, kwargs, node):
            p.kblog.append((s.fork(), argvals(ip, s, fi, args, kwargs), ip.where(node)))
            return [(s, V(top(ip.svn(node, 'kbs'), frozenset(['kbs']))))]
        st[gk.qual] = kbs
    p.rets, p.excs = p.ctx.scenario(p.ip, fi, setup, stubs=st)


def c14_judge(ctx, p, root, name, fmt, link, over, js):
    # knowledge bases
    for s, d, where in p.kblog:
        vals = list(d.values())
        if not vals:
            if over:
                ctx.report_static('kb-override', root, where, '%s: the knowledge bases are loaded without the overrides' % name)
            continue
        v = vals[0]
        if not over:
            if not any(a == NONE_A or a[0] in ('T', 'XI') for a in v) and not all(empty_dict(s, a) for a in v):
                ctx.report_static('kb-default', root, where, '%s: the knowledge bases are loaded with overrides' % name)
            continue
        for a in v:
            if a == NONE_A:
                ctx.report_static('kb-override', root, where, '%s: the knowledge bases are loaded without the overrides' % name)
            elif a[0] == 'R' and a[1] in s.heap and s.heap[a[1]].kind == 'dict' and not s.heap[a[1]].restk:
                e = s.heap[a[1]].ent
                if set(e) != {const('journals')} or not e[const('journals')][1]:
                    ctx.report_static('kb-override', root, where, '%s: the knowledge bases are loaded with overrides for %s' % (
                        name, sorted(k[2] for k in e)))
                elif e[const('journals')][0] != PS('override', ['override']) and not fuzzy(e[const('journals')][0]) and \
                        'override' not in deep_labels(s, e[const('journals')][0]):
                    ctx.report_static('kb-override', root, where, '%s: another journals knowledge base is used' % name)
    if over and p.log and not p.kblog and ctx.fn('get_kbs') is not None:
        ctx.report_static('kb-override', root, root, '%s: knowledge bases are not loaded with the overrides' % name)
    # callback and knowledge bases at the line parser
    for labs, s, d, where in p.log:
        v = d.get('linker_callback', NONE)
        if link and v == NONE:
            ctx.report_static('callback', root, where, '%s: the line parser is called without the callback' % name)
        if not link and not any(a == NONE_A or a[0] in ('T', 'XI') for a in v):
            ctx.report_static('callback', root, where, '%s: the line parser is called with a callback' % name)
        if link and v != NONE and not fuzzy(v) and V(('X', 'refx_linker')) != v and all(a[0] == 'C' for a in v):
            ctx.report_static('callback', root, where, '%s: the line parser is called with %s as callback' % (name, show(v)))
        k = d.get('kbs')
        if k is not None and p.kblog and 'kbs' not in labels_of(k) and not any(a[0] in ('R', 'XI') for a in k):
            ctx.report_static('kb-used', root, where, '%s: the line parser does not get the loaded knowledge bases' % name)
    # format
    want = fmt if fmt is not None else DEFAULT_FMT
    for s, items in p.refs():
        if root == 'extract_references_from_list':
            items = items[:1]
        for r, it in zip(items, js):
            got = field(s, r, 'journal_reference')
            ctx.count('references_judged')
            if got is None or got == 'differs' or isinstance(got, tuple):
                if isinstance(got, tuple):
                    ctx.report_static('format', root, root, '%s: the journal reference is reported on some paths only' % name)
                else:
                    ctx.count('imprecise_results')
                continue
            w = [V(fmt_term(want, it))]
            if got != w and not any(fuzzy(v) or lost(v) for v in got):
                ctx.report_static('format', root, root, '%s: the journal reference is %s, expected %s' % (name, wshow(got), wshow(w)))


def lost(v):
    from .. import words
    return any(a[0] == 'S' and not words.wordy(a) for a in v)


def wshow(x):
    if isinstance(x, (list, tuple)) and not (x and x[0] in ('C', 'S')):
        return '[%s]' % ', '.join(wshow(v) for v in x)
    if isinstance(x, frozenset):
        return ' or '.join(sorted(wshow(a) for a in x))
    if x[0] == 'S':
        return ''.join(p if isinstance(p, str) else '<%s>' % (p[1][1] if len(p[1]) > 1 else '?') for p in x[1])
    return show(x)


def empty_dict(s, a):
    return a[0] == 'R' and a[1] in s.heap and s.heap[a[1]].kind == 'dict' and not s.heap[a[1]].ent and not s.heap[a[1]].restk
