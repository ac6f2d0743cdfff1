"""C04: the service-level calls (finite partition of the outcomes of each item)."""
import itertools

from ..common import *  # noqa
from ..common import Monitor, P, PS, argvals, stub_any

FAILS = ('Exception', 'ValueError', 'OSError')


def alloc_node(ip):
    return None


def item_of(ip, st, args, kwargs):
    labs = NOL
    for v in list(args) + list(kwargs.values()):
        labs |= deep(st, v)
    xs = sorted(x for x in labs if x.startswith('item'))
    return xs


def deep(st, v, d=0):
    r = labels_of(v)
    if d > 4:
        return r
    for a in v:
        if a[0] == 'R' and a[1] in st.heap:
            o = st.heap[a[1]]
            for x in o.items:
                if isinstance(x, frozenset):
                    r |= deep(st, x, d + 1)
            for _k, (x, _m) in (o.ent or {}).items():
                r |= deep(st, x, d + 1)
    return r


def outcome_stub(scen, journal, excl):
    """the extraction call: its outcome is fixed by the item it is called on"""
    def f(ip, st, fi, args, kwargs, node):
        its = item_of(ip, st, args[:1], {} if args else {k: v for k, v in list(kwargs.items())[:1]})
        if len(its) != 1:
            its = item_of(ip, st, args, kwargs)
        if len(its) != 1:
            ip.raise_(st, 'Exception', 'stub', node)
            return [(st, V(top(('mixed', tuple(its)))))]
        k = scen.get(its[0], 'ok')
        if k == 'raise':
            fail(ip, st, excl, node)
            return []
        if k == 'none':
            return [(st, NONE)]
        if k == 'empty':
            return [(st, V(ip.new_list(st, node, (), tag=('out', its[0]))))]
        if journal:
            return [(st, V(ip.new_dict(st, node, {const('title'): (V(S(('res', its[0]))), True)}, tag=('out', its[0]))))]
        refs = [V(ip.new_dict(st, node, {const('res'): (V(S(('res', its[0], j))), True)}, tag=('ref', its[0], j))) for j in range(2)]
        return [(st, V(ip.new_list(st, node, refs, tag=('out', its[0]))))]
    return f


def fail(ip, st, excl, node):
    """an exception without any argument"""
    for s, v in ip.mk_exc(st, excl, [], {}, node):
        ip.raise_(s, excl, 'stub', node, val=v, fork=False)


def const_stub(outcome, journal=False):
    """the extraction call on constant texts: its outcome is fixed by the text"""
    def f(ip, st, fi, args, kwargs, node):
        v = args[0] if args else next(iter(kwargs.values()), EMPTY)
        a = single(v)
        if a is None or a[0] != 'C':
            return [(st, V(top(('mixed', 0))))]
        k = outcome(a[2])
        if k == 'raise':
            fail(ip, st, 'ValueError', node)
            return []
        if k == 'none':
            return [(st, NONE)]
        if k == 'empty':
            return [(st, V(ip.new_list(st, node, (), tag=('out', a[2]))))]
        if journal:
            return [(st, V(ip.new_dict(st, node, {const('title'): (V(const('R0' + a[2])), True)}, tag=('out', a[2]))))]
        refs = [V(ip.new_dict(st, node, {const('res'): (V(const('R%d%s' % (j, a[2]))), True)}, tag=('ref', a[2], j))) for j in range(2)]
        return [(st, V(ip.new_list(st, node, refs, tag=('out', a[2]))))]
    return f


TEXTS = {'blank': ('b', '', 'a', ' ', '\n'), 'repeated': ('b', 'a', 'b', 'b', 'a'), 'padded': (' b ', 'b', 'a\n', '\ta', 'a'),
         'long': ('b' * 70000, 'a'), 'many': tuple('x%d' % ((i * 7) % 130) for i in range(130)),
         'case': ('Ba', 'bA', 'BA', 'ba'), 'labelled': ('[1] x', '[2] x', '1. x', 'x'), 'wide': ('\u00e9', 'e\u0301', '\u2009x', 'x')}
OUT = {'all found': lambda t: 'ok', 'nothing found': lambda t: 'empty', 'all fail': lambda t: 'raise',
       'some fail': lambda t: 'raise' if 'b' in t or t.endswith('7') else 'ok', 'blanks fail': lambda t: 'ok' if t.strip() else 'raise',
       'blanks empty': lambda t: 'ok' if t.strip() else 'empty'}


def values(s, v):
    """a returned value made of constants, lists and dicts as plain data (None: not decided)"""
    a = single(v)
    if a is None:
        return None
    if a[0] == 'C':
        return a
    if a[0] != 'R' or a[1] not in s.heap:
        return None
    o = s.heap[a[1]]
    if o.kind == 'list' and not o.rest:
        its = [values(s, x) for x in o.items]
        return None if None in its else ('list',) + tuple(its)
    if o.kind == 'dict' and not o.restk and all(k[0] == 'C' and must for k, (_v, must) in o.ent.items()):
        its = {k[2]: values(s, x) for k, (x, _m) in o.ent.items()}
        return None if None in its.values() else ('dict',) + tuple(sorted(its.items(), key=repr))
    return None


def texts(ctx, fi, base, target, journal):
    """lists of constant texts: blank, repeated, padded, long and many"""
    key = 'extracted_publication_infos' if journal else 'extracted_references'
    ip0 = ctx.session(maxstates=24, words=True)
    for tn, ts in TEXTS.items():
        for on, out in OUT.items():
            kinds = [out(t) for t in ts]
            if journal:
                kinds = ['none' if k == 'empty' else k for k in kinds]
                if 'raise' in kinds or on == 'blanks empty':
                    continue
            if tn == 'many' and on not in ('all found', 'nothing found', 'some fail'):
                continue
            st = dict(base)
            st[target.qual] = const_stub((lambda t: 'none' if out(t) == 'empty' else out(t)) if journal else out, journal)

            def setup(ip, s):
                if not journal:
                    its = [V(const(t)) for t in ts]
                else:
                    its = [V(ip.new_dict(s, fi.node, {const('pubinfo_freetext'): (V(const(t)), True)}, tag=('in', i))) for i, t in enumerate(ts)]
                return [V(ip.new_list(s, fi.node, its, tag='in')), P('journal_kb_data')], {}
            rets, excs = ctx.scenario(ip0, fi, setup, stubs=st)
            ip = ip0
            ctx.count('text_scenarios')
            what = '%s texts, %s' % (tn, on)
            esc(ctx, fi.name, ip, excs, what)
            want = []
            for t, k in zip(ts, kinds):
                if k == 'ok' and not (journal and not t):
                    want.append((('dict', (('title' if journal else 'res'), const('R0' + t))),))
                elif journal:
                    want.append((('dict',),) + ((('dict', ('title', const('R0' + t))),) if not t.strip() and k == 'ok' else ()))
                else:
                    want.append((('dict', ('raw_ref', ('list', const(t)))),))
            if journal:     # a text of blanks only may count as no text
                want = [w + (('dict',),) if not t.strip() else w for w, t in zip(want, ts)]
            for s, v in rets:
                for kind, a in fetch(s, v, key):
                    if kind in ('none', 'nokey'):
                        ctx.report_static('answer-missing', fi.name, fi.qual, '%s: no list is returned' % what)
                        continue
                    o = s.heap.get(a[1]) if kind == 'list' and a[0] == 'R' else None
                    if o is None or o.kind != 'list' or o.rest:
                        continue
                    if len(o.items) != len(ts):
                        ctx.report_static('length', fi.name, fi.qual, '%s: %d entries for %d items' % (what, len(o.items), len(ts)))
                        continue
                    for i, x in enumerate(o.items):
                        d = values(s, x)
                        ctx.count('entries_judged')
                        if d is not None and d not in want[i]:
                            ctx.report_static('wrong-entry', fi.name, fi.qual, '%s: entry %d is not the one for item %d (%r)' % (what, i, i, ts[i][:20]))
                            break


def fetch(st, v, key):
    """entries of a returned {key: list}: yields (state-of-knowledge, items or None)"""
    for a in v:
        if a == NONE_A:
            yield 'none', a
        elif a[0] == 'R' and st.heap[a[1]].kind == 'dict':
            o = st.heap[a[1]]
            e = o.ent.get(const(key))
            if e is None:
                yield ('unknown' if o.restk else 'nokey'), a
                continue
            for b in e[0]:
                yield 'list', b
        else:
            yield 'unknown', a


def is_raw(st, a, want):
    """'yes' if a is exactly {"raw_ref": [want]}, 'no' if certainly not, else '?'"""
    if a[0] != 'R' or a[1] not in st.heap:
        return '?' if a[0] in ('T', 'XI') else 'no'
    o = st.heap[a[1]]
    if o.kind != 'dict':
        return '?'
    if o.restk:
        return '?'
    if set(o.ent) != {const('raw_ref')}:
        return 'no'
    (v, must) = o.ent[const('raw_ref')]
    if not must:
        return 'no'
    r = 'yes'
    for b in v:
        if b[0] == 'R' and st.heap[b[1]].kind == 'list':
            l = st.heap[b[1]]
            if l.rest or len(l.items) != 1:
                return '?' if l.rest else 'no'
            if (l.multi or o.multi) and want in l.items[0]:
                r = '?'               # merged with the entry of another item
            elif l.items[0] != frozenset([want]):
                return '?' if has_top(l.items[0]) and top_free(l.items[0]) else 'no'
        elif b[0] in ('T', 'XI'):
            r = '?'
        else:
            return 'no'
    return r


def is_res(st, a, item, j):
    if a[0] != 'R' or a[1] not in st.heap:
        return '?' if a[0] in ('T', 'XI') else 'no'
    o = st.heap[a[1]]
    if o.kind != 'dict':
        return '?' if o.kind == 'any' else 'no'
    e = o.ent.get(const('res'))
    if e is None:
        return '?' if o.restk else 'no'
    if e[0] == V(S(('res', item, j))):
        return 'yes'
    return '?' if has_top(e[0]) else 'no'


def top_free(v):
    return True


def is_empty_dict(st, a):
    if a[0] != 'R' or a[1] not in st.heap:
        return '?' if a[0] in ('T', 'XI') else 'no'
    o = st.heap[a[1]]
    if o.kind != 'dict':
        return 'no'
    if o.ent:
        return 'no'
    return '?' if o.restk else 'yes'


def c04(ctx):
    ctx.rule('each service call is analysed under a finite partition of what extraction of each item does (succeeds, yields '
             'nothing, raises); no exception of extraction reaches the caller')
    ctx.rule('list: the answer has exactly one entry per input, entry i is the first result for item i or exactly '
             '{"raw_ref": [item i]}; publication infos: entry i is the result for item i or {}')
    s_str = ctx.need('extract_references_from_string')
    s_url = ctx.need('extract_references_from_url')
    s_jr = ctx.need('extract_journal_reference')
    if not (s_str and s_url and s_jr):
        return
    s_file = ctx.fn('extract_references_from_file')
    base = {s_file.qual: stub_any()} if s_file else {}

    # ---- single-item calls
    for root, target, val in (('extract_references_from_text', s_str, 'extract_references_from_string'),
                              ('extract_references_from_file_url', s_url, 'extract_references_from_url')):
        fi = ctx.need(root)
        if fi is None:
            continue
        for k, excl in [('ok', None), ('empty', None)] + [('raise', e) for e in FAILS]:
            st = dict(base)
            st[target.qual] = outcome_stub({'item0': k}, False, excl)
            ip, rets, excs = ctx.run(fi, lambda ip, s: ([PS('text', ['item0']), P('journal_kb_data')], {}), stubs=st)
            ctx.count('scenarios')
            esc(ctx, root, ip, excs, k)
            for s, v in rets:
                for kind, a in fetch(s, v, 'extracted_references'):
                    ctx.count('answers_checked')
                    if k == 'raise':
                        if kind in ('list', 'nokey'):
                            ctx.report_static('failure-not-none', root, fi.qual, 'extraction fails with %s but the call does not return None' % excl)
                    else:
                        if kind in ('none', 'nokey'):
                            ctx.report_static('result-lost', root + ' ' + k, fi.qual, 'extraction succeeds but the call returns %s' % kind)
                        elif kind == 'list' and k == 'ok':
                            o = s.heap.get(a[1]) if a[0] == 'R' else None
                            if o is not None and o.kind == 'list' and not o.rest:
                                if len(o.items) != 2 or any(is_res(s, b, 'item0', i) == 'no' for i, x in enumerate(o.items) for b in x):
                                    ctx.report_static('result-changed', root, fi.qual, 'the references returned are not the ones extracted')
                            elif a[0] == 'C':
                                ctx.report_static('result-lost', root + ' ' + k, fi.qual, 'extraction succeeds but the call returns %r' % (a[2],))

    # ---- list of raw references
    fi = ctx.need('extract_references_from_list')
    if fi is not None:
        for n in (0, 1, 2, 3):
            kinds = ('ok', 'empty', 'raise') if n < 3 else ('ok', 'empty', 'raise')
            for combo in itertools.product(kinds, repeat=n):
                for excl in (FAILS if 'raise' in combo and n == 1 else ('Exception',)):
                    scen = {'item%d' % i: k for i, k in enumerate(combo)}
                    st = dict(base)
                    st[s_str.qual] = outcome_stub(scen, False, excl)
                    items = [S(('param', 'ref%d' % i), ['item%d' % i]) for i in range(n)]
                    ip, rets, excs = ctx.run(fi, lambda ip, s: ([V(ip.new_list(s, fi.node, [V(x) for x in items], tag='in')),
                                                                 P('journal_kb_data')], {}), stubs=st, maxstates=40)
                    ctx.count('scenarios')
                    esc(ctx, 'extract_references_from_list', ip, excs, combo)
                    for s, v in rets:
                        for kind, a in fetch(s, v, 'extracted_references'):
                            listcase(ctx, fi, s, kind, a, combo, items)
        # any number of items: the length of the answer is the length of the input
        st = dict(base)
        st[s_str.qual] = stub_any()
        ip, rets, excs = ctx.run(fi, lambda ip, s: ([V(ip.new_list(s, fi.node, (), V(S(('elem', 0), ['item'])), tag='in',
                                                                   cnt=lin_sym('n'))), P('journal_kb_data')], {}), stubs=st)
        lencase(ctx, fi, rets, 'extracted_references', 'n')
        texts(ctx, fi, base, s_str, False)
        esc(ctx, 'extract_references_from_list', ip, excs, 'any')

    # ---- publication infos
    fi = ctx.need('extract_journal_info')
    if fi is not None:
        for n in (0, 1, 2, 3):
            for combo in itertools.product(('ok', 'none', 'nokey', 'blank', 'raise') if n < 3 else ('ok', 'none', 'nokey'), repeat=n):
                scen = {'item%d' % i: k for i, k in enumerate(combo)}
                for excl in (FAILS if combo == ('raise',) else ('Exception',)):
                    st = dict(base)
                    st[s_jr.qual] = outcome_stub(scen, True, excl)

                    def setup(ip, s):
                        ds = []
                        for i, k in enumerate(combo):
                            ent = {}
                            if k == 'blank':
                                ent[const('pubinfo_freetext')] = (cst(''), True)
                            elif k != 'nokey':
                                ent[const('pubinfo_freetext')] = (V(('S', (('H', ('param', 'pub%d' % i), frozenset(['item%d' % i])), 'x'))), True)
                            ds.append(V(ip.new_dict(s, fi.node, ent, tag=('in', i))))
                        return [V(ip.new_list(s, fi.node, ds, tag='in')), P('journal_kb_data')], {}
                    ip, rets, excs = ctx.run(fi, setup, stubs=st, maxstates=40)
                    ctx.count('scenarios')
                    esc(ctx, 'extract_journal_info', ip, excs, combo)
                    for s, v in rets:
                        for kind, a in fetch(s, v, 'extracted_publication_infos'):
                            pubcase(ctx, fi, s, kind, a, combo)
        st = dict(base)
        st[s_jr.qual] = stub_any(raises=False)
        ip, rets, excs = ctx.run(fi, lambda ip, s: ([V(ip.new_list(s, fi.node, (), V(top(('elem', 0), ['item'])), tag='in',
                                                                   cnt=lin_sym('n'))), P('journal_kb_data')], {}), stubs=st)
        lencase(ctx, fi, rets, 'extracted_publication_infos', 'n')
        texts(ctx, fi, base, s_jr, True)


def lencase(ctx, fi, rets, key, n):
    for s, v in rets:
        for kind, a in fetch(s, v, key):
            if kind == 'list' and a[0] == 'R' and s.heap[a[1]].kind == 'list':
                c = s.heap[a[1]].cnt
                ctx.count('lengths_decided', 1 if c is not None else 0)
                if c is not None and c != lin_sym(n):
                    ctx.report_static('length', fi.name, fi.qual, 'for n items the answer has %s entries' % (c,))


def esc(ctx, root, ip, excs, scen):
    for s, e in excs:
        if e.kind in ('stub', 'user', 'none', 'unbound', 'key!', 'index!', 'attr!'):
            ctx.report_static('exception-escapes', root, e.site, 'an exception of extraction (%s, scenario %s) escapes %s' % (
                e.cls, scen, root))


def listcase(ctx, fi, s, kind, a, combo, items):
    ctx.count('answers_checked')
    if kind in ('none', 'nokey'):
        ctx.report_static('answer-missing', fi.name + str(combo), fi.qual, 'scenario %s: no list of references is returned' % (combo,))
        return
    if kind != 'list' or a[0] != 'R' or s.heap[a[1]].kind != 'list':
        return
    o = s.heap[a[1]]
    if o.rest:
        return
    if len(o.items) != len(combo):
        ctx.report_static('length', fi.name, fi.qual, 'scenario %s: %d entries for %d items' % (combo, len(o.items), len(combo)))
        return
    for i, (k, v) in enumerate(zip(combo, o.items)):
        for b in v:
            if k == 'ok':
                if is_res(s, b, 'item%d' % i, 0) == 'no':
                    ctx.report_static('wrong-entry', fi.name, fi.qual, 'scenario %s: entry %d is not the first reference of item %d' % (combo, i, i))
            elif is_raw(s, b, items[i]) == 'no':
                ctx.report_static('wrong-fallback', fi.name, fi.qual,
                                  'scenario %s: entry %d is not exactly the raw text of item %d' % (combo, i, i))


def pubcase(ctx, fi, s, kind, a, combo):
    ctx.count('answers_checked')
    if 'raise' in combo:
        # the first failing item that is reached makes the whole call fail
        if kind in ('list', 'nokey'):
            ctx.report_static('failure-not-none', fi.name, fi.qual, 'scenario %s: extraction fails but the call does not return None' % (combo,))
        return
    if kind in ('none', 'nokey'):
        ctx.report_static('answer-missing', fi.name, fi.qual, 'scenario %s: %s is returned' % (combo, kind))
        return
    if kind != 'list' or a[0] != 'R' or s.heap[a[1]].kind != 'list':
        return
    o = s.heap[a[1]]
    if o.rest:
        return
    if len(o.items) != len(combo):
        ctx.report_static('length', fi.name, fi.qual, 'scenario %s: %d entries for %d items' % (combo, len(o.items), len(combo)))
        return
    for i, (k, v) in enumerate(zip(combo, o.items)):
        for b in v:
            if k == 'ok':
                bad = b[0] == 'C' or is_empty_dict(s, b) == 'yes'
                if b[0] == 'R' and s.heap[b[1]].kind == 'dict':
                    e = s.heap[b[1]].ent.get(const('title'))
                    if e is None or e[0] != V(S(('res', 'item%d' % i))):
                        bad = True
                if bad:
                    ctx.report_static('wrong-entry', fi.name, fi.qual, 'scenario %s: entry %d is not the result of item %d' % (combo, i, i))
            elif is_empty_dict(s, b) == 'no':
                ctx.report_static('wrong-fallback', fi.name, fi.qual, 'scenario %s: entry %d is not an empty entry' % (combo, i))
