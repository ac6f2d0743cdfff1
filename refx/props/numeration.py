"""C21: an accepted journal reference has a title, a volume and a page."""
import itertools

from .. import rx as rxm
from .. import words
from ..common import *  # noqa
from ..common import PS, argvals
from ..words import word
from .lines import It, Lines, elements, scenarios, text, typ, describe, txt, citations

TEXT = {'vol_num': '73017', 'vol_num_alt': '74027', 'vol_num_alt2': '75037', 'page': '81017', 'jinst_page': 'P083017', 'page_end': '84047',
        'year': '1999', 'series': 'B', 'aftertitle': ' 73017 81017'}


class Fake:
    """a match of which only the groups taking part (and their texts) are known"""

    def __init__(self, R, txts, end):
        self.R, self.txts, self._end = R, txts, end

    def group(self, g=0):
        if g == 0:
            return TEXT['aftertitle']
        if isinstance(g, int):
            g = next((n for n, i in self.R.groups.items() if i == g), None)
            if g is None:
                return 'q'
        return self.txts.get(g)

    def start(self, g=0):
        return 0

    def end(self, g=0):
        return self._end

    def span(self, g=0):
        return (0, self._end)


def numerational(R):
    return R.known and 'page' in R.groups and ('vol' in R.groups or 'vol_num' in R.groups)


def variants(R):
    """texts of the groups, for every set of groups that can take part"""
    names = list(R.groups)
    vs = rxm.vectors(R.tree, 600, {R.groups[n] for n in names})
    if vs is None:
        names = [n for n in R.groups if n in TEXT or n == 'vol']
        vs = rxm.vectors(R.tree, 600, {R.groups[n] for n in names})
    if vs is None:
        return None
    out = []
    for v in sorted(vs, key=sorted):
        t = {n: TEXT.get(n) or '9%d13' % R.groups[n] for n in names if R.groups[n] in v and n != 'vol'}
        t.update({n: 'q' for n in R.groups if n not in names and R.always(n)})
        if 'vol' in names and R.groups['vol'] in v:
            t['vol'] = next((t[n] for n in sorted(t) if n.startswith('vol_num')), '77077')
        out.append((t, None))
        for n in t:
            if (n.startswith('vol_num') or n in ('page', 'jinst_page')) and R.group_min(n) == 0:
                out.append((dict(t, **{n: ''}), n))
    return out


class Num:
    """a session in which numeration patterns match as chosen"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.L = Lines(ctx)
        self.pats = {}
        self.choice = None

    def hook(self, ip, st, R, a, name, subj, node):
        if not numerational(R) or name not in ('match', 'search', 'fullmatch'):
            return None
        self.pats.setdefault(a[1], (R, name, ip.site(node)))
        if self.choice is None or self.choice[0] != a[1]:
            return [(st, NONE)]
        f = Fake(R, self.choice[1], 6)
        return [(st, V(words.match_atom(a[1], (f,) * len(words.CLASSES), subj, {})))]

    def scenario(self, fi, setup, stubs=None):
        ip = self.L.ip
        ip.rxhook = self.hook
        try:
            return self.ctx.scenario(ip, fi, setup, stubs=stubs or {})
        finally:
            ip.rxhook = None


def plain(v):
    ps = text(v) if v is not None else None
    return None if ps is None else ''.join(p if isinstance(p, str) else '{%s}' % p[1][1] for p in ps)


def c21(ctx):
    ctx.rule('for every numeration pattern and every set of its groups that can take part in a match: the journal item built from it has '
             'the title, exactly the volume and the page of the match, and both are non-empty')
    ctx.rule('sequences of journals and ibids, with and without numeration: an ibid takes over the last cited title; nothing without '
             'numeration becomes a journal item')
    ctx.rule('every journal item that leaves the line parser has a non-empty title, volume and page')
    N = Num(ctx)
    if not N.L.ok:
        return
    single_titles(ctx, N)
    implied(ctx, N)
    sequences(ctx, N)
    untagged(ctx, N)


def journal_of(ctx, N, chunk):
    """items of a chunk of tagged line"""
    out, excs = N.L.items([chunk])
    res = []
    for s, els, n in out:
        if els is None:
            return None
        res.append([e for e in els if typ(e) == 'JOURNAL'])
    return res or None


def ok_journal(ctx, name, js, title, txts, where):
    ctx.count('journals_judged')
    vol = next((txts[n] for n in sorted(txts) if n.startswith('vol_num') and txts[n]), None)
    page = txts.get('page') or txts.get('jinst_page')
    if len(js) != 1:
        ctx.report_static('no-journal', where, where, '%s: %d journal items' % (name, len(js)))
        return
    j = js[0]
    got = {k: plain(j.get(k)) for k in ('title', 'volume', 'page')}
    if None in got.values():
        ctx.count('imprecise_results')
        return
    if got['volume'].strip() in ('', 'None') or vol is not None and not got['volume'].endswith(vol):
        ctx.report_static('volume', where, where, '%s: the volume reported is %r' % (name, got['volume']))
    if got['page'].strip() in ('', 'None') or page is not None and not got['page'].startswith(page):
        ctx.report_static('page', where, where, '%s: the page reported is %r' % (name, got['page']))
    if got['title'] != title:
        ctx.report_static('title', where, where, '%s: the title reported is %r' % (name, got['title']))


def vname(R, t, empty):
    return 'groups %s%s' % ('+'.join(sorted(n for n in t if n in TEXT)), '' if not empty else ' with empty ' + empty)


def single_titles(ctx, N):
    fi = ctx.fn('add_tagged_journal')
    if fi is None:
        ctx.incomplete.append('add_tagged_journal not found')
        return

    def setup(ibid, prev, semi=False):
        def f(ip, s):
            node = fi.node
            line = cst('Aaa %s  73017, 81017 (1999) bbb' % ('IBID' if ibid else 'FIRST'))
            titles = V(ip.new_dict(s, node, {const('FIRST'): (V(mkstr(list(word('T1')[1]) + (['; C'] if semi else []))), True)}, tag='titles'))
            pm = V(ip.new_dict(s, node, {const('title'): (V(word('T0')), True), const('series'): (NONE, True)} if prev else {}, tag='prev'))
            d = dict(reading_line=line, journal_info=cst('IBID' if ibid else 'FIRST'), previous_match=pm, startpos=cst(0),
                     true_replacement_index=cst(4), extras=cst(0), standardised_titles=titles)
            names = [a.arg for a in fi.node.args.args]
            return [], {k: v for k, v in d.items() if k in names}
        return f

    def chunks(rets):
        for s, v in rets:
            for a in v:
                if a[0] == 'U' and len(a[1]) == 3:
                    c = single(a[1][0])
                    if c is not None and (c[0] == 'C' or words.wordy(c)):
                        yield s, c
                    else:
                        ctx.count('imprecise_results')
    cases = [('title', False, False, False), ('ibid', True, True, False), ('title with series', False, True, True)]
    for cn, ibid, prev, semi in cases:
        N.choice = None
        rets, excs = N.scenario(fi, setup(ibid, prev, semi))
        for s, c in chunks(rets):
            ctx.count('chunks_judged')
            if any('<cds.JOURNAL' in p for p in parts_of(c) if isinstance(p, str)):
                js = journal_of(ctx, N, c)
                if js and any(js):
                    ctx.report_static('journal-without-numeration', cn, fi.qual, '%s without numeration: tagged as a journal' % cn)
        for key, (R, how, site) in list(N.pats.items()):
            vs = variants(R)
            if vs is None:
                ctx.notes.append('too many group combinations in a pattern used at %s' % site)
                continue
            ctx.count('patterns')
            for t, empty in vs:
                N.choice = (key, t)
                rets, excs = N.scenario(fi, setup(ibid, prev, semi))
                name = '%s, numeration style at %s, %s' % (cn, site, vname(R, t, empty))
                for s, e in excs:
                    if e.kind in ('none', 'key!', 'attr'):
                        ctx.report_static('numeration-raises', e.site, e.site, '%s: %s' % (name, e.cls))
                for s, c in chunks(rets):
                    if not parts_of(c) or c == const(''):
                        continue    # not accepted
                    js = journal_of(ctx, N, c)
                    if js is None:
                        ctx.count('imprecise_results')
                        continue
                    for x in js:
                        ok_journal(ctx, name, x, '{T0}' if ibid else '{T1}', t, site)
    N.choice = None
    rets, excs = N.scenario(fi, setup(True, False))
    for key, (R, how, site) in list(N.pats.items())[:3]:
        vs = variants(R)
        N.choice = (key, vs[0][0]) if vs else None
        rets, excs = N.scenario(fi, setup(True, False))
        for s, c in chunks(rets):
            js = journal_of(ctx, N, c)
            if js and any(js):
                ctx.report_static('ibid-of-nothing', 'ibid', fi.qual, 'an ibid without an earlier journal becomes a journal item')


def mkel(ip, s, node, typ_, tag, **kw):
    d = {const('type'): (cst(typ_), True)}
    for k, v in kw.items():
        d[const(k)] = (v if isinstance(v, frozenset) else V(v), True)
    return V(ip.new_dict(s, node, d, tag=('el', tag)))


def implied(ctx, N):
    fi = ctx.fn('look_for_implied_ibids')
    if fi is None:
        ctx.notes.append('look_for_implied_ibids not found')
        return

    def build(shape):
        def f(ip, s):
            node = fi.node
            cits = []
            for i, c in enumerate(shape):
                els = []
                for j, k in enumerate(c):
                    tag = (i, j)
                    if k == 'J':
                        els.append(mkel(ip, s, node, 'JOURNAL', tag, misc_txt=const(''), title=word('T%d%d' % tag), volume=word('V%d%d' % tag, '1234%d' % i),
                                        year=const('1990'), page=const('55'), is_ibid=const(False),
                                        extra_ibids=V(ip.new_list(s, node, (), tag=('x', i, j)))))
                    elif k == 'M':
                        els.append(mkel(ip, s, node, 'MISC', tag, misc_txt=const('73017, 81017 (1999) text')))
                    else:
                        els.append(mkel(ip, s, node, 'REPORTNUMBER', tag, misc_txt=const(''), report_num=word('R%d%d' % tag)))
                cits.append(V(ip.new_list(s, node, els, tag=('cit', i))))
            return [V(ip.new_list(s, node, cits, tag='cits'))], {}
        return f
    shapes = ((('J',), ('M',)), (('J',), ('M',), ('M',)), (('J', 'J'), ('M',)), (('J',), ('J',), ('M',)), (('J',), ('R',), ('M',)), (('M',),),
              (('J', 'R'), ('R', 'M')))
    for shape in shapes:
        N.choice = None
        pats = dict(N.pats)
        N.pats = {}
        N.scenario(fi, build(shape))
        here = dict(N.pats)
        N.pats = pats
        if not any('M' in c for c in shape[1:]):
            here = here or pats
        for key, (R, how, site) in here.items():
            for t, empty in variants(R) or ():
                N.choice = (key, t)
                rets, excs = N.scenario(fi, build(shape))
                name = 'citations %s, %s' % (' | '.join('+'.join(c) for c in shape), vname(R, t, empty))
                for s, e in excs:
                    if e.kind in ('none', 'key!', 'attr'):
                        ctx.report_static('numeration-raises', e.site, e.site, '%s: %s' % (name, e.cls))
                for s, v in rets:
                    cits = citations(s, v)
                    if cits is None or len(cits) != len(shape):
                        ctx.count('imprecise_results')
                        continue
                    last = None
                    for i, c in enumerate(cits):
                        for e in c:
                            if typ(e) != 'JOURNAL':
                                continue
                            got = {k: plain(e.get(k)) for k in ('title', 'volume', 'page')}
                            if None in got.values():
                                ctx.count('imprecise_results')
                                continue
                            ctx.count('journals_judged')
                            if got['page'] != '55':
                                ok_journal(ctx, name, [e], last, t, fi.qual)
                            last = got['title']
    N.choice = None


STEP = {'F': ('FIRST', True), 'S': ('SECOND', True), 'f': ('FIRST', False), 'I': ('IBID', True), 'i': ('IBID', False)}


def sequences(ctx, N):
    fi = ctx.fn('process_reference_line')
    if fi is None:
        ctx.notes.append('process_reference_line not found')
        return
    same = lambda ip, st, f2, args, kwargs, node: [(st, args[0] if args else next(iter(kwargs.values())))]  # noqa
    stubs = {}
    for n in ('identify_and_tag_authors', 'identify_and_tag_collaborations'):
        if ctx.fn(n) is not None:
            stubs[ctx.fn(n).qual] = same
    n = 3 if ctx.tier != 'thorough' else 4
    for ln in range(1, n + 1):
        for seq in itertools.product('FSfIi', repeat=ln):
            line = 'Aaa, '
            pos, want, prev = {}, [], None
            for i, k in enumerate(seq):
                t, num = STEP[k]
                pos[len(line)] = t
                line += t
                if num:
                    line += ' %d2 (199%d) %d7' % (70 + i, i, 80 + i)
                    title = prev if k == 'I' else '{T%s}' % t
                    if title is not None:
                        want.append((title, '%d2' % (70 + i), '%d7' % (80 + i)))
                        prev = title
                line += ' and texts; '
            line += 'end'

            def setup(ip, s):
                node = fi.node
                e = lambda tag: V(ip.new_dict(s, node, {}, tag=tag))  # noqa
                kb = V(ip.new_dict(s, node, {const(k): (V(ip.new_dict(s, node, {}, tag=('kb', k))), True) for k in
                                             ('journals', 'authors', 'collaborations', 'publishers')}, tag='kbs'))
                d = dict(working_line=cst(line), journals_matches=V(ip.new_dict(s, node, {const(p): (cst(t), True) for p, t in pos.items()}, tag='jm')),
                         pprint_repnum_len=e('a'), pprint_repnum_matchtext=e('b'), publishers_matches=e('c'), removed_spaces=e('d'),
                         standardised_titles=V(ip.new_dict(s, node, {const('FIRST'): (V(word('TFIRST')), True),
                                                                     const('SECOND'): (V(word('TSECOND')), True)}, tag='titles')), kbs=kb)
                names = [a.arg for a in fi.node.args.args]
                return [], {k: v for k, v in d.items() if k in names}
            rets, excs = ctx.scenario(N.L.ip, fi, setup, stubs=stubs)
            for s, v in rets:
                c = single(v)
                if c is None or not (c[0] == 'C' or words.wordy(c)):
                    ctx.count('imprecise_results')
                    continue
                js = journal_of(ctx, N, c)
                if js is None:
                    ctx.count('imprecise_results')
                    continue
                for x in js:
                    got = [tuple(plain(j.get(k)) for k in ('title', 'volume', 'page')) for j in x]
                    if any(None in g for g in got):
                        ctx.count('imprecise_results')
                        continue
                    ctx.count('sequences_judged')
                    if got != want:
                        rule = 'sequence'
                        ctx.report_static(rule, 'journals and ibids', fi.qual, 'line %r: journals reported are %s, expected %s' % (line, got, want))


def untagged(ctx, N):
    """a title without (complete) numeration stays text; every journal item is complete"""
    L = N.L
    t = word('TT')

    def J(kind, *rest):
        return mkstr(['<cds.%s>' % kind] + list(t[1]) + ['</cds.%s>' % kind] + list(rest))
    vol, yr, pg = ' <cds.VOL>73017</cds.VOL>', ' <cds.YR>(1999)</cds.YR>', ' <cds.PG>81017</cds.PG>'
    for kind in ('JOURNAL', 'JOURNALibid'):
        for rest in ((), (vol,), (yr,), (pg,), (vol, yr), (yr, pg)):
            toks = [txt(0), const(' '), J(kind, ''.join(rest)), txt(9, lead=' ')]
            out, excs = L.items(toks)
            for s, els, n in out:
                if els is None:
                    continue
                ctx.count('lines_judged')
                if any(typ(e) == 'JOURNAL' for e in els):
                    ctx.report_static('incomplete-journal', kind, 'line parser', 'a title followed only by %s becomes a journal item' % (
                        ', '.join(x.split('>')[0].strip(' <') for x in rest) or 'text'))
                else:
                    m = [w for e in els for w in (text(e.get('misc_txt', EMPTY)) or ()) if not isinstance(w, str)]
                    if all(text(e.get('misc_txt', EMPTY)) is not None for e in els) and not any(w[1] == ('word', 'TT') for w in m):
                        ctx.report_static('title-lost', kind, 'line parser', 'a title without numeration is not kept as text')
    for extra in ('', ';B', ' B', '; C'):
        t2 = mkstr(['<cds.JOURNAL>'] + list(t[1]) + [extra + '</cds.JOURNAL>' + vol + yr + pg])
        out, excs = L.parse([txt(0), const(' '), t2, txt(9, lead=' ')])
        for s, cits, n in out:
            for e in (e for c in cits or () for e in c if typ(e) == 'JOURNAL'):
                v, g = plain(e.get('volume')), plain(e.get('page'))
                ctx.count('journals_judged')
                if v is not None and not v.endswith('73017') or g is not None and not g.endswith('81017'):
                    ctx.report_static('changed', 'volume' if g and g.endswith('81017') else 'page', 'line parser',
                                      'volume 73017, page 81017 of the journal "...%s" are reported as %s, %s' % (extra, v, g))
    for toks in scenarios(ctx, False):
        if not any(isinstance(x, It) and x.kind.startswith('JOURNAL') for x in toks):
            continue
        out, excs = L.parse(toks)
        for s, cits, n in out:
            for c in cits or ():
                for e in c:
                    if typ(e) != 'JOURNAL':
                        continue
                    ctx.count('journals_judged')
                    for k in ('title', 'volume', 'page'):
                        p = plain(e[k]) if k in e else ''
                        if p == '' or k not in e or e[k] == NONE:
                            ctx.report_static('empty-' + k, k, 'line parser', 'line %s: a journal item without %s' % (describe(toks), k))
