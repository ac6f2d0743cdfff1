"""C20: every knowledge base is loaded from its own source and consulted by its own recogniser."""
from .. import rx as rxm
from ..common import *  # noqa
from ..common import P, PS, argvals, stub_any
from .history import KINDS, deep_labels, dict_kb, file_kb, kb_types, opaque

DEFAULT = {'journals': 'journal-titles.kb', 'journals_re': 'journal-titles-re.kb', 'report-numbers': 'report-numbers.kb',
           'authors': 'authors.kb', 'collaborations': 'collaborations.kb', 'books': 'books.kb', 'publishers': 'publishers.kb',
           'special_journals': 'special-journals.kb'}
FILES = frozenset(DEFAULT.values())
# two entries of every kind, as the lines of a file
ENTRIES = {
    'journals': ['ALPHAQ TITLE---Alphaq Repl', 'BETAQ TITLE---Betaq Repl'],
    'journals_re': ['ALPHAQ TITLE---Alphaq Repl', 'BETAQ TITLE---Betaq Repl'],
    'report-numbers': ['*****INST*****', '<9999>', 'ALPHAQ---Alphaq-rp', '*****INSTB*****', '<999>', 'BETAQ---Betaq-rp'],
    'authors': ['ALPHAQ---Alphaq', 'BETAQ---Betaq'],
    'collaborations': ['ALPHAQ---Alphaq', 'BETAQ---Betaq'],
    'books': ['Alphaq Author|Alphaq title|1990;', 'Betaq Author|Betaq title|1991;'],
    'publishers': ['ALPHAQ---Alphaq', 'BETAQ---Betaq'],
    'special_journals': ['Alphaq Repl', 'Betaq Repl'],
}
TEXTS = {'books': ('Alphaq Author', 'ALPHAQ TITLE', 'Betaq Author', 'BETAQ TITLE'), 'special_journals': ('Alphaq Repl', 'Betaq Repl'),
         'report-numbers': ('ALPHAQ', 'Alphaq-rp', 'BETAQ', 'Betaq-rp'),
         'journals': ('ALPHAQ TITLE', 'Alphaq Repl', 'BETAQ TITLE', 'Betaq Repl'),
         'journals_re': ('ALPHAQ TITLE', 'Alphaq Repl', 'BETAQ TITLE', 'Betaq Repl')}
MAPPED = ('journals', 'collaborations', 'publishers')


def path_label(a):
    ps = parts_of(a)
    if not ps or not isinstance(ps[-1], str):
        return None
    b = ps[-1].rsplit('/', 1)[-1]
    return 'f:' + b if b in FILES and a[0] != 'C' else None


def texts(st, v, seen=None):
    """every constant text in a value (keys, elements, patterns)"""
    out = set()
    seen = set() if seen is None else seen
    for a in v:
        if a[0] == 'R':
            if a[1] in seen or a[1] not in st.heap:
                continue
            seen.add(a[1])
            o = st.heap[a[1]]
            for x in list(o.items) + [o.rest, o.restk]:
                if isinstance(x, frozenset):
                    out |= texts(st, x, seen)
            for k, (x, _m) in (o.ent or {}).items():
                out |= texts(st, V(k), seen) | texts(st, x, seen)
            for x in (o.attrs or {}).values():
                out |= texts(st, x, seen)
        elif a[0] == 'U':
            for x in a[1]:
                out |= texts(st, x, seen)
        elif a[0] == 'C' and isinstance(a[2], str):
            out.add(a[2])
        elif a[0] == 'RX':
            out.add(rx_text(a))
    return out


def rx_text(a):
    """the text of a pattern without unknown parts"""
    R = rxm.REG.get(a[1]) if hasattr(rxm.REG, 'get') else rxm.REG[a[1]]
    ps = R.parts if R is not None else None
    return ''.join(ps) if ps and all(isinstance(x, str) for x in ps) else ''


def unknown(st, v, seen=None):
    """does the value contain an unknown text or object"""
    seen = set() if seen is None else seen
    for a in v:
        if a[0] in ('S', 'T', 'XI') or a[0] == 'RX' and not rx_text(a):
            return True
        if a[0] == 'U' and any(unknown(st, x, seen) for x in a[1]):
            return True
        if a[0] == 'R' and a[1] in st.heap and a[1] not in seen:
            seen.add(a[1])
            o = st.heap[a[1]]
            if o.kind not in ('list', 'dict', 'set'):
                return True
            for k in (o.ent or {}):
                if unknown(st, V(k), seen):
                    return True
            for x in list(o.items) + [o.rest, o.restk] + [e[0] for e in (o.ent or {}).values()]:
                if isinstance(x, frozenset) and unknown(st, x, seen):
                    return True
    return False


class Load:
    """the knowledge bases one call hands to the line parser"""

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.root = ctx.need(name)
        self.prl = ctx.need('parse_reference_line')
        self.ok = self.root is not None and self.prl is not None

    def run(self, ov, lines=False):
        log = []

        def cap(ip, st, fi, args, kwargs, node):
            d = argvals(ip, st, fi, args, kwargs)
            v = d.get('kbs', args[1] if len(args) > 1 else None)
            if v is not None:
                log.append((st.fork(), v))
            return [(st, V(('U', tuple(V(ip.new_list(st, node, (), tag=('pl', i))) for i in range(4)))))]

        def setup(ip, s):
            kw = {} if ov is None else dict(override_kbs_files=ov(ip, s))
            if self.root.name == 'parse_references':
                return [V(ip.new_list(s, self.root.node, [PS('line', ['doc'])], tag='in'))], kw
            return [PS('line', ['doc'])], kw
        from ..interp import Interp
        ip, rets, excs = self.ctx.run(self.root, setup, stubs={self.prl.qual: cap}, path_label=path_label, words=lines is not False,
                                      flow_labels=Interp.flow_labels | {'f:' + f for f in FILES}, file_lines=lines or None)
        out = []
        for s, v in log:
            for d, unk, a in kb_types(s, v):
                out.append((s, {k: e[0] for k, e in d.items()}, unk))
        return out, excs


def c20(ctx):
    ctx.rule('one call per knowledge-base kind and shape of override (file, mapping, list of pairs, list of lines, empty, missing): the '
             'overridden knowledge base carries the data of the override and nothing of its default, every other one carries its own default')
    ctx.rule('each recogniser is given the knowledge base meant for it (taint of every knowledge base through the tagging of a line)')
    for root in ('extract_journal_reference', 'parse_references'):
        ld = Load(ctx, root)
        if ld.ok:
            loading(ctx, ld, root)
    consult(ctx)
    engine_kbs(ctx)


def loading(ctx, ld, root):
    node = ld.root.node

    def ov(kind, val):
        return lambda ip, s: V(ip.new_dict(s, node, {const(kind): (val(ip, s), True)}, tag=('ov', kind)))

    def judge(name, got, kind, want):
        """want: 'default', 'h1'"""
        for s, d, unk in got:
            for k in KINDS:
                if k not in d:
                    if not unk:
                        ctx.report_static('kb-missing', k, ld.root.qual, '%s: no %s knowledge base reaches the parser' % (name, k))
                    continue
                labs = deep_labels(s, d[k])
                own = 'f:' + DEFAULT[k]
                src = sorted(x[2:] for x in labs if x.startswith('f:'))
                ctx.count('kb_values_checked')
                if k == kind and want == 'h1':
                    if 'h1' not in labs and not opaque(s, d[k]):
                        ctx.report_static('override-ignored', k, ld.root.qual, '%s: the %s knowledge base used is not the override' % (name, k))
                    elif src:
                        ctx.report_static('override-merged', k, ld.root.qual, '%s: the %s knowledge base used still contains data of %s' % (
                            name, k, ', '.join(src)))
                    continue
                if 'h1' in labs:
                    ctx.report_static('override-leaks', k, ld.root.qual, '%s: data of the override is in the %s knowledge base' % (name, k))
                elif src and own not in labs:
                    ctx.report_static('wrong-default', k, ld.root.qual, '%s: the %s knowledge base is read from %s' % (name, k, ', '.join(src)))
                elif not src and own not in labs and not opaque(s, d[k]):
                    ctx.report_static('default-lost', k, ld.root.qual, '%s: the %s knowledge base has no data of its default' % (name, k))

    base, _ = ld.run(None)
    judge('%s without override' % root, base, None, 'default')
    if not base:
        if not ctx.incomplete:
            ctx.incomplete.append('%s: the parser call was not reached' % root)
        return
    empty, _ = ld.run(lambda ip, s: V(ip.new_dict(s, node, {}, tag='ov')))
    judge('%s with an empty override mapping' % root, empty, None, 'default')
    others = [('None', lambda ip, s: NONE), ("''", lambda ip, s: cst(''))]
    for kind in KINDS:
        got, _ = ld.run(ov(kind, lambda ip, s: file_kb('h1', kind)))
        judge('%s with a file for %s' % (root, kind), got, kind, 'h1')
        if not got:
            ctx.report_static('override-fails', '%s file' % kind, ld.root.qual, '%s with a file for %s: the parser is never reached' % (root, kind))
        if root == 'parse_references' and ctx.tier != 'thorough':
            continue
        for what, val in others + ([('{}', lambda ip, s: V(ip.new_dict(s, node, {}, tag='e'))), ('[]', lambda ip, s: V(ip.new_list(s, node, (), tag='e')))]
                                   if kind in MAPPED else []):
            got, _ = ld.run(ov(kind, val))
            name = '%s with override {%r: %s}' % (root, kind, what)
            judge(name, got, kind, 'default')
            if not got:
                ctx.report_static('empty-override', kind, ld.root.qual, '%s: the parser is never reached' % name)
        # the content: every entry of the override is there
        path = '/h1/%s.exact' % kind
        want = TEXTS.get(kind, ('ALPHAQ', 'Alphaq', 'BETAQ', 'Betaq'))
        ents = ENTRIES[kind]
        shapes = [('file', (lambda ip, s: cst(path)), {path: [e + '\n' for e in ents]}),
                  ('file without a final newline', (lambda ip, s: cst(path)), {path: [e + '\n' for e in ents[:-1]] + [ents[-1]]})]
        if kind in MAPPED:
            pairs = [e.split('---') for e in ents]
            shapes += [('dictionary', lambda ip, s: V(ip.new_dict(s, node, {const(a): (cst(b), True) for a, b in pairs}, tag='kb')), None),
                       ('list', lambda ip, s: V(ip.new_list(s, node, [V(('U', (cst(a), cst(b)))) for a, b in pairs], tag='kb')), None)]
        elif kind != 'books':
            shapes += [('list', lambda ip, s: V(ip.new_list(s, node, [cst(e + '\n') for e in ents], tag='kb')), None)]
        else:
            shapes += [('list', lambda ip, s: V(ip.new_list(s, node, [V(ip.new_list(s, node, [cst(c) for c in e.split('|')], tag=('row', i)))
                                                                     for i, e in enumerate(ents)], tag='kb')), None)]
        for shape, val, lines in shapes:
            # the other kinds by constant files, so that everything is known
            lines = dict(lines or {}, **{'/h2/%s' % k: [e + '\n' for e in ENTRIES[k]] for k in KINDS})

            def all_ov(ip, s):
                ent = {const(k): (cst('/h2/%s' % k), True) for k in KINDS}
                ent[const(kind)] = (val(ip, s), True)
                return V(ip.new_dict(s, node, ent, tag='ov'))
            got, excs = ld.run(all_ov, lines)
            name = '%s with a %s for %s' % (root, shape, kind)
            if not got:
                ctx.report_static('override-fails', '%s %s' % (kind, shape.split()[0]), ld.root.qual, '%s: the parser is never reached' % name)
                continue
            for s, d, unk in got:
                if kind not in d:
                    continue
                ctx.count('contents_checked')
                src = sorted(x[2:] for x in deep_labels(s, d[kind]) if x.startswith('f:'))
                if src:
                    ctx.report_static('override-merged', kind, ld.root.qual, '%s: the %s knowledge base used contains data of %s' % (
                        name, kind, ', '.join(src)))
                    continue
                have = texts(s, d[kind])
                missing = [t for t in want if not any(t == h or t in h for h in have)]
                if missing and not unknown(s, d[kind]):
                    ctx.report_static('override-content', kind, ld.root.qual, '%s: %s missing in the %s knowledge base' % (
                        name, ', '.join(missing), kind))


# recogniser -> knowledge base
CONSULT = {'identify_report_numbers': 'report-numbers', 'identify_journals': 'journals', 'identifiy_journals_re': 'journals_re',
           'identify_publishers': 'publishers', 'add_tagged_publisher': 'publishers', 'identify_and_tag_authors': 'authors',
           'identify_and_tag_collaborations': 'collaborations'}


def consult(ctx):
    fi = ctx.fn('tag_reference_line')
    if fi is None:
        ctx.incomplete.append('tag_reference_line not found')
        return
    seen = {}

    def rec(name):
        def f(ip, st, f2, args, kwargs, node):
            labs = set()
            for v in list(args) + list(kwargs.values()):
                if isinstance(v, frozenset):
                    labs |= {x for x in ip.deep_labels(st, v) if x.startswith('k:')}
            seen.setdefault(name, []).append((labs, ip.where(node), ip.site(node)))
            n = {'identify_report_numbers': 3, 'identify_journals': 3, 'add_tagged_publisher': 2}.get(name)
            if n:
                return [(st, V(('U', tuple(V(top(ip.svn(node, ('r', i)))) for i in range(n)))))]
            if name.startswith('identify_and_tag'):
                return [(st, V(S(ip.svn(node, 'tagged'))))]
            return [(st, V(top(ip.svn(node, 'r'))))]
        return f
    stubs = {}
    for name in CONSULT:
        x = ctx.fn(name)
        if x is not None:
            stubs[x.qual] = rec(name)
    for name in ('wash_line', 'tag_pos_volume', 'tag_quoted_text', 'tag_isbn', 'tag_arxiv', 'tag_arxiv_more', 'tag_atlas_conf',
                 'untag_quoted_items', 'strip_tags', 'wash_volume_tag'):
        x = ctx.fn(name)
        if x is not None:
            stubs[x.qual] = lambda ip, st, f2, args, kwargs, node: [(st, V(S(ip.svn(node, 'text'))))]
    for name, n in (('add_tagged_journal', 3), ('add_tagged_report_number', 2), ('account_for_stripped_whitespace', 2), ('identify_ibids', 2)):
        x = ctx.fn(name)
        if x is not None:
            stubs[x.qual] = lambda ip, st, f2, args, kwargs, node, n=n: [(st, V(('U', tuple(V(top(ip.svn(node, ('r', i)))) for i in range(n)))))]

    def setup(ip, s):
        ent = {}
        for k in KINDS:
            lab = frozenset(['k:' + k])
            v = V(top(('param', 'kb', k), lab))
            if k == 'journals':
                v = V(('U', tuple(V(top(('param', 'kb', k, i), lab)) for i in range(3))))
            ent[const(k)] = (v, True)
        return [PS('line'), V(ip.new_dict(s, fi.node, ent, tag='kbs')), P('counts')], {}
    from ..interp import Interp
    ip, rets, excs = ctx.run(fi, setup, stubs=stubs, flow_labels=Interp.flow_labels | {'k:' + k for k in KINDS})
    for name, kind in CONSULT.items():
        if ctx.fn(name) is None:
            continue
        calls = seen.get(name)
        if not calls:
            if ctx.fn(name).key in ctx.reach(fi):
                ctx.notes.append('%s was not reached' % name)
            elif rets:
                ctx.report_static('not-consulted', name, fi.qual, 'tagging a line never calls %s: the %s knowledge base is not used' % (name, kind))
            continue
        ctx.count('recogniser_calls_checked', len(calls))
        for labs, where, site in calls:
            if labs and 'k:' + kind not in labs:
                ctx.report_static('wrong-kb', name, where, '%s is given the %s knowledge base instead of %s' % (
                    name, ', '.join(sorted(x[2:] for x in labs)), kind))


def engine_kbs(ctx):
    """books and special journals, consulted while the items of a line are put together"""
    from .lines import It, Lines, txt, typ
    from ..words import word
    title = const('Some Book')

    def books(ip, s):
        row = V(ip.new_list(s, L.fi.node, [cst('Book Author'), cst('Some Book'), cst('1990;')], tag='row'))
        return V(ip.new_dict(s, L.fi.node, {const('SOME BOOK'): (row, True)}, tag='books'))

    def special(ip, s):
        return V(ip.new_list(s, L.fi.node, [cst('Some Book')], tag='special'))

    def run(kbs, toks):
        L.kbs = kbs
        out, excs = L.parse(toks)
        return [c for s, c, n in out], [s for s, c, n in out]
    L = Lines(ctx)
    if not L.ok:
        return
    q = [txt(0), const(' '), It('QUOTED', 0, content=title), const(' '), It('REPORTNUMBER', 1), txt(9, lead=' ')]
    for which, kbs, want in (('books', dict(books=books), True), ('no', {}, False)):
        cits, _ = run(kbs, q)
        for c in cits:
            if c is None:
                continue
            ctx.count('lines_judged')
            has = any(typ(e) == 'BOOK' for cit in c for e in cit)
            if has != want:
                ctx.report_static('books', which, 'line parser', 'a quoted title that is%s in the books knowledge base is%s reported as a book' % (
                    '' if want else ' not', '' if has else ' not'))
    j = It('JOURNAL', 0)
    j.parts = ['<cds.JOURNAL>Some Book</cds.JOURNAL>', ' <cds.VOL>07</cds.VOL> <cds.YR>(1998)</cds.YR> <cds.PG>012</cds.PG>']
    for which, kbs, want in (('special', dict(special_journals=special), '9807'), ('no', {}, '07'), ('books', dict(books=books), '07')):
        cits, _ = run(kbs, [txt(0), const(' '), j, txt(9, lead=' ')])
        for c in cits:
            if c is None:
                continue
            js = [e for cit in c for e in cit if typ(e) == 'JOURNAL']
            ctx.count('lines_judged')
            for e in js:
                v = e.get('volume')
                if v is not None and is_const(v) and getc(v) != want:
                    ctx.report_static('special-journals', which, 'line parser', 'volume 07 of 1998 of a journal %s in the special journals knowledge base '
                                      'is reported as %s' % ('that is' if which == 'special' else 'that is not', getc(v)))
