"""C06 (history independence) and C07 (caller objects are not modified)."""
import ast

from ..common import *  # noqa
from ..common import Monitor, P, PS, argvals, stub_any

KINDS = ('journals', 'journals_re', 'report-numbers', 'authors', 'collaborations', 'books', 'publishers', 'special_journals')
ITER_KINDS = ('journals', 'collaborations')


def deep_labels(st, v, seen=None, d=0):
    """every label reachable from a value (keys, elements, patterns)"""
    r = set()
    if seen is None:
        seen = set()
    for a in v:
        if a[0] == 'R':
            if a[1] in seen or a[1] not in st.heap:
                continue
            seen.add(a[1])
            o = st.heap[a[1]]
            r |= o.labels
            for x in list(o.items) + [o.rest, o.restk]:
                if isinstance(x, frozenset):
                    r |= deep_labels(st, x, seen, d + 1)
            for k, (x, _m) in (o.ent or {}).items():
                r |= deep_labels(st, V(k), seen, d + 1) | deep_labels(st, x, seen, d + 1)
            for x in (o.attrs or {}).values():
                r |= deep_labels(st, x, seen, d + 1)
        elif a[0] == 'U':
            for x in a[1]:
                r |= deep_labels(st, x, seen, d + 1)
        elif a[0] != 'C':
            r |= labels_of_atom(a)
    return r


def opaque(st, v, seen=None, d=0):
    """does the value contain something unknown?"""
    if seen is None:
        seen = set()
    for a in v:
        if a[0] in ('T', 'XI'):
            return True
        if a[0] == 'U' and any(opaque(st, x, seen, d + 1) for x in a[1]):
            return True
        if a[0] == 'R' and a[1] in st.heap and a[1] not in seen:
            seen.add(a[1])
            o = st.heap[a[1]]
            if o.kind == 'any':
                return True
            for x in list(o.items) + [o.rest] + [e[0] for e in (o.ent or {}).values()]:
                if isinstance(x, frozenset) and opaque(st, x, seen, d + 1):
                    return True
    return False


def kb_capture(log, cur):
    def f(ip, st, fi, args, kwargs, node):
        d = argvals(ip, st, fi, args, kwargs)
        v = d.get('kbs', args[1] if len(args) > 1 else None)
        if v is not None:
            log.append((cur[0], st.fork(), v))
        return [(st, V(('U', tuple(V(ip.new_list(st, node, (), tag=('pl', i))) for i in range(4)))))]
    return f


def kb_types(st, v):
    """kb type -> Value, or None if the mapping is not understood"""
    for a in v:
        if a[0] == 'R' and a[1] in st.heap and st.heap[a[1]].kind == 'dict':
            o = st.heap[a[1]]
            yield {k[2]: e for k, e in o.ent.items() if k[0] == 'C'}, bool(o.restk), a


def file_kb(h, kind):
    return cst('/%s/%s.%s' % (h, kind, h))


def dict_kb(ip, st, node, h, tag, shape='dict'):
    """{'<h>A...': '<h>R...'}: two versions are never equal"""
    k = ('S', ('%sA' % h.upper(), ('H', ('param', h, 'k'), frozenset([h, 'kb']))))
    v = ('S', ('%sR' % h.upper(), ('H', ('param', h, 'v'), frozenset([h, 'kb']))))
    if shape == 'dict':
        return ip.new_dict(st, node, {k: (V(v), True)}, tag=tag)
    pair = V(('U', (V(k), V(v))))
    return ip.new_list(st, node, (pair,), tag=tag)


def c06(ctx):
    root = ctx.need('extract_journal_reference')
    prl = ctx.need('parse_reference_line')
    if not root or not prl:
        return
    ctx.rule('sequences of calls with different overrides (other files, other mappings, a mapping modified in place, a load '
             'that fails) analysed with the process state carried over: the knowledge bases a call hands to the parser carry '
             'only data of that call\'s own arguments')
    sequences(ctx, root, prl)
    ctx.rule('no object that outlives the call (module level, default argument, cached knowledge base) is modified while '
             'lines are parsed, except by a memo keyed by everything the stored value depends on')
    persist(ctx)


def seq_case(ctx, root, prl, name, steps, want, forbid, kinds, must):
    log, cur = [], [0]
    st = {prl.qual: kb_capture(log, cur)}

    def wrap(i, f):
        def g(ip, s):
            cur[0] = i
            ov = f(ip, s) if f else None
            return [PS('line', ['doc'])], ({} if ov is None else dict(override_kbs_files=ov))
        return g
    ip, out = ctx.sequence(root, [(wrap(i, f), w) for i, (f, w) in enumerate(steps)], stubs=st)
    n = 0
    for i, s, v in log:
        if i != len(steps) - 1:
            continue
        for d, unk, a in kb_types(s, v):
            n += 1
            for kind in KINDS:
                e = d.get(kind)
                if e is None:
                    if not unk:
                        ctx.report_static('kb-missing', '%s %s' % (name, kind), root.qual, '%s: no %s knowledge base reaches the parser' % (name, kind))
                    continue
                labs = deep_labels(s, e[0])
                ctx.count('kb_values_checked')
                bad = labs & set(forbid)
                if bad:
                    ctx.report_static('stale-kb', '%s %s' % (name, kind), root.qual,
                                      '%s: the %s knowledge base handed to the parser still contains data of an earlier call' % (name, kind))
                if kind in kinds and want and want not in labs and not opaque(s, e[0]):
                    ctx.report_static('override-ignored', '%s %s' % (name, kind), root.qual,
                                      '%s: the %s knowledge base handed to the parser is not the one given to this call' % (name, kind))
    if must and not n and not ctx.incomplete:
        ctx.incomplete.append('%s: the parser call was not reached' % name)
    return ip


def sequences(ctx, root, prl):
    node = root.node

    def files(h, kinds=KINDS):
        return lambda ip, s: V(ip.new_dict(s, node, {const(k): (file_kb(h, k), True) for k in kinds}, tag=('ov', h)))

    def maps(h, kinds=ITER_KINDS, shape='dict'):
        def f(ip, s):
            ent = {const(k): (V(dict_kb(ip, s, node, h, ('kb', h, k), shape)), True) for k in kinds}
            return V(ip.new_dict(s, node, ent, tag=('ov', h)))
        return f

    def modified(shape):
        """step 1: a mapping with h1 data; step 2: the same object, content replaced by h2 data"""
        ids = {}

        def f1(ip, s):
            ent = {}
            for k in ITER_KINDS:
                a = dict_kb(ip, s, node, 'h1', ('kb', 'same', k), shape)
                # the object belongs to the caller and lives on
                s.put(a[1], s.heap[a[1]].but(labels=s.heap[a[1]].labels | {'caller'}))
                ids[k] = a
                ent[const(k)] = (V(a), True)
            return V(ip.new_dict(s, node, ent, tag=('ov', 'm1'), labels=frozenset(['caller'])))

        def f2(ip, s):
            ent = {}
            for k in ITER_KINDS:
                a = ids[k]
                b = dict_kb(ip, s, node, 'h2', ('kb', 'new', k), shape)
                o = s.heap[b[1]]
                s.put(a[1], o.but(labels=o.labels | {'caller'}))
                ent[const(k)] = (V(a), True)
            return V(ip.new_dict(s, node, ent, tag=('ov', 'm2')))
        return f1, f2
    R = 'ret'
    case = lambda *a, **k: seq_case(ctx, root, prl, *a, **k)  # noqa
    case('override files, then no override', [(files('h1'), R), (None, R)], None, ['h1'], (), True)
    case('override files, then other files', [(files('h1'), R), (files('h2'), R)], 'h2', ['h1'], KINDS, True)
    case('no override, then override files', [(None, R), (files('h2'), R)], 'h2', [], KINDS, True)
    case('files, none, the same files', [(files('h1'), R), (None, R), (files('h1'), R)], 'h1', [], KINDS, True)
    for shape in ('dict', 'list'):
        case('%s override, then no override' % shape, [(maps('h1', shape=shape), R), (None, R)], None, ['h1'], (), True)
        case('%s override, then another' % shape, [(maps('h1', shape=shape), R), (maps('h2', shape=shape), R)], 'h2', ['h1'], ITER_KINDS, True)
        case('%s override, then files' % shape, [(maps('h1', shape=shape), R), (files('h2'), R)], 'h2', ['h1'], KINDS, True)
        f1, f2 = modified(shape)
        case('%s override modified in place between calls' % shape, [(f1, R), (f2, R)], 'h2', ['h1'], ITER_KINDS, True)
    for kind in KINDS:
        case('loading %s fails, then no override' % kind, [(files('h1', (kind,)), 'exc'), (None, R)], None, ['h1'], (), False)
        case('default, loading %s fails, then the same override' % kind,
             [(None, R), (files('h1', (kind,)), 'exc'), (files('h1', (kind,)), R)], 'h1', [], (kind,), False)


class Persist(Monitor):
    """mutation of objects that outlive the call"""

    def __init__(self, ctx, root):
        super().__init__(ctx)
        self.root = root
        self.cache = {}

    def persistent(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            return False
        if 'persist' in o.labels:
            return True
        # reachable from an object that outlives the call
        seen = set()
        work = [x for x, p in st.heap.items() if 'persist' in p.labels and p.kind in ('dict', 'list', 'set', 'inst')
                and any(isinstance(r, tuple) and r in st.heap and 'persist' not in st.heap[r].labels for r in p.refs())]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            if k == oid:
                return True
            if k in st.heap:
                work += [r for r in st.heap[k].refs() if r in st.heap]
        return False

    def on_mutate(self, ip, st, node, info):
        oid = info['oid']
        self.ctx.count('mutations_checked')
        if not self.persistent(st, oid):
            return
        o = st.heap[oid]
        inside = 'persist' not in o.labels
        if inside and 'kb' in deep_labels(st, V(('R', oid))):
            self.ctx.report('cached-kb-modified', ip, node, 'a knowledge base is modified after it was built (%s)' % info['op'])
            return
        if not doc_in_frame(ip, st):
            return
        if memo(ip, st, node, info):
            return
        self.ctx.report('persistent-object-modified', ip, node,
                        'an object that outlives the call is modified while a document is processed (%s)' % info['op'])

    def on_global_store(self, ip, st, node, info):
        v = info['value']
        labs = deep_labels(st, v)
        self.ctx.count('global_stores_checked')
        if labs & {'doc', 'h1'}:
            self.ctx.report('global-stored', ip, node, 'a value derived from the document is stored in %s.%s' % (
                info['mod'], info['name']), key='%s %s' % (ip.site(node), info['name']))


def doc_in_frame(ip, st):
    f = st.frames.get(ip.stack[-1][1], {})
    return any(isinstance(v, frozenset) and 'doc' in deep_labels(st, v) for v in f.values())


def memo(ip, st, node, info):
    """a store that cannot carry information from one line to another: a constant, or a
    value stored under a key that depends on the same text (and not on the old content)"""
    val, key = info.get('val') or EMPTY, info.get('key') or EMPTY
    if info['op'] not in ('setitem', 'setdefault'):
        return False
    if isinstance(node, ast.AugAssign):
        return False
    kl = deep_labels(st, key) & {'doc'}
    vl = deep_labels(st, val) & {'doc', 'kb'}
    if not vl and not kl:
        return True
    return bool(kl)


def roots(ctx, mk):
    """the parts that together make up every extraction; mk(label set) -> labels"""
    def lines(fi):
        return lambda ip, s: ([V(ip.new_list(s, fi.node, (), V(S(('elem', 0), ['doc'])), tag='in', cnt=lin_sym('n')))], {})

    def lines_pat(fi):
        return lambda ip, s: (lines(fi)(ip, s)[0] + [PS('ptn')], {})
    for name, setup in (('extract_references_from_fulltext', lines), ('rebuild_reference_lines', lines_pat),
                        ('get_reference_section_beginning', lines), ('find_numeration_in_body', lines),
                        ('extract_texkeys_and_urls_from_pdf', lambda fi: lambda ip, s: ([PS('path', ['path'])], {})),
                        ('convert_PDF_to_plaintext', lambda fi: lambda ip, s: ([PS('path', ['path'])], {})),
                        ('get_plaintext_document_body', lambda fi: lambda ip, s: ([PS('path', ['path'])], {})),
                        ('build_references', lambda fi: lambda ip, s: ([P('citations', ['doc'])], {})),
                        ('extract_journal_reference', lambda fi: lambda ip, s: ([PS('line', ['doc'])], {}))):
        fi = ctx.fn(name)
        if fi is not None:
            yield name, fi, setup(fi), {}
    prl = ctx.fn('parse_reference_line')
    pr = ctx.fn('parse_references')
    if pr is not None:
        yield 'parse_references', pr, lambda ip, s: (lines(pr)(ip, s)[0], {}), ({prl.qual: stub_any(labels=['doc'])} if prl else {})
    big = {f.qual: stub_any(labels=['doc']) for f in map(ctx.fn, ('extract_references_from_string', 'extract_references_from_url',
                                                                  'extract_journal_reference')) if f}
    for name in ('extract_references_from_list', 'extract_journal_info', 'extract_references_from_text', 'extract_references_from_file_url'):
        fi = ctx.fn(name)
        if fi is not None:
            yield name, fi, (lambda ip, s: ([P('data', ['doc']), P('journal_kb_data')], {})), big


def persist(ctx):
    for name, fi, setup, stubs in roots(ctx, None):
        ctx.run(fi, setup, stubs=stubs, monitors=[Persist(ctx, name)])


# ---------------------------------------------------------------------------- C07
class Caller(Monitor):
    def on_mutate(self, ip, st, node, info):
        self.ctx.count('mutations_checked')
        o = info['obj']
        if o is not None and 'caller' in o.labels:
            self.ctx.report('caller-object-modified', ip, node, '%s given by the caller is modified (%s)' % (
                o.m('what') or 'an object', info['op']))


CL = frozenset(['caller'])


def co(ip, s, node, kind, what, tag, **kw):
    """a container of the caller"""
    o = Obj(kind, labels=CL, meta=(('what', what),), **kw)
    return ip.alloc(s, node, o, ('caller', tag))


def kb_override(ip, s, node, lists):
    """an override mapping holding dictionaries (lists) of the caller's"""
    SK = lambda n: V(S(('param', n), ['kb']))  # noqa
    def mapping(k):
        return V(co(ip, s, node, 'dict', 'the %s knowledge base' % k, k, ent={}, rest=SK(k + 'v'), restk=SK(k + 'k')))

    def pairs(k):
        return V(co(ip, s, node, 'list', 'the %s knowledge base' % k, k, rest=V(('U', (SK(k + 'k'), SK(k + 'v'))))))

    def lines(k):
        return V(co(ip, s, node, 'list', 'the %s knowledge base' % k, k, rest=SK(k + 'l')))

    def rows(k):
        row = ip.alloc(s, node, Obj('list', labels=CL, rest=SK(k + 'c'), multi=True, meta=(('what', 'a row of the %s knowledge base' % k),)),
                       ('caller', k, 'row'))
        return V(co(ip, s, node, 'list', 'the %s knowledge base' % k, k, rest=V(row)))
    ent = {}
    for k in ('journals', 'collaborations'):
        ent[const(k)] = ((pairs if lists else mapping)(k), True)
    if lists:
        for k in ('journals_re', 'report-numbers', 'authors', 'special_journals'):
            ent[const(k)] = (lines(k), True)
        ent[const('books')] = (rows('books'), True)
        ent[const('publishers')] = (rows('publishers'), True)
    return V(co(ip, s, node, 'dict', 'the override mapping', 'override', ent=ent))


def c07(ctx):
    ctx.rule('no operation that modifies a list, dictionary or set is applied, in any analysed calling context, to a container '
             'that belongs to the caller (lists and their items, override mapping and its knowledge bases, headers)')
    mon = [Caller(ctx)]
    fn = ctx.fn
    prl = fn('parse_reference_line')
    strs = {f.qual: stub_any(labels=['doc']) for f in (fn('extract_references_from_string'), fn('extract_references_from_url'),
                                                       fn('extract_references_from_file')) if f}
    jr = fn('extract_journal_reference')
    strs_jr = dict(strs, **({jr.qual: stub_any(labels=['doc'])} if jr else {}))

    def lines(ip, s, fi, what):
        return V(co(ip, s, fi.node, 'list', what, 'in', rest=V(S(('elem', 0), ['doc'])), cnt=lin_sym('n')))

    def kb(ip, s, fi):
        return V(co(ip, s, fi.node, 'dict', 'the journal knowledge base', 'jkb', ent={}, rest=V(S(('param', 'kv'), ['kb'])),
                    restk=V(S(('param', 'kk'), ['kb']))))

    def go(name, setup, stubs):
        fi = ctx.need(name)
        if fi is not None:
            ctx.run(fi, lambda ip, s: setup(ip, s, fi), stubs={k: v for k, v in stubs.items() if k != fi.qual}, monitors=mon)
    go('extract_references_from_list', lambda ip, s, fi: ([lines(ip, s, fi, 'the list of references'), kb(ip, s, fi)], {}), strs_jr)
    go('extract_references_from_text', lambda ip, s, fi: ([PS('text', ['doc']), kb(ip, s, fi)], {}), strs_jr)
    go('extract_references_from_file_url', lambda ip, s, fi: ([PS('url', ['url']), kb(ip, s, fi)], {}), strs_jr)

    def pubs(ip, s, fi):
        d = ip.alloc(s, fi.node, Obj('dict', labels=CL, ent={const('pubinfo_freetext'): (V(S(('elem', 1), ['doc'])), False)},
                                     rest=V(top(('elem', 2))), restk=V(S(('elem', 3))), multi=True,
                                     meta=(('what', 'a publication info'),)), ('caller', 'pub'))
        l = co(ip, s, fi.node, 'list', 'the list of publication infos', 'in', rest=V(d), cnt=lin_sym('n'))
        return [V(l), kb(ip, s, fi)], {}
    go('extract_journal_info', pubs, strs_jr)
    heavy = ctx.slice_stubs(frozenset(['get_kbs', 'parse_reference_line', 'parse_references']), mode='raise')
    for x in ('get_kbs',):
        if fn(x):
            heavy[fn(x).qual] = stub_any(labels=['kb'])
    if prl:
        heavy[prl.qual] = stub_any(labels=['doc'])

    def ov(ip, s, fi, lists=False):
        return dict(override_kbs_files=kb_override(ip, s, fi.node, lists))
    go('extract_references_from_string', lambda ip, s, fi: ([PS('source', ['doc'])], ov(ip, s, fi)), heavy)
    go('extract_references_from_file', lambda ip, s, fi: ([PS('path', ['path'])], ov(ip, s, fi)), heavy)
    go('parse_references', lambda ip, s, fi: ([lines(ip, s, fi, 'the list of reference lines')], ov(ip, s, fi)),
       {k: v for k, v in heavy.items() if not k.endswith('build_references') and not k.endswith('parse_references_elements')})

    def url(ip, s, fi):
        h = co(ip, s, fi.node, 'dict', 'the request headers', 'hdr', ent={}, rest=V(S(('param', 'hv'))), restk=V(S(('param', 'hk'))))
        return [PS('url', ['url'])], dict(ov(ip, s, fi), headers=V(h))
    go('extract_references_from_url', url, dict(strs))
    for lists in (False, True):
        go('extract_journal_reference', lambda ip, s, fi: ([PS('line', ['doc'])], ov(ip, s, fi, lists)), {})
    for name in ('parse_references_elements',):
        fi = fn(name)
        if fi is None:
            continue
        args = {'rebuild_reference_lines': [PS('ptn')], 'parse_references_elements': [P('kbs')]}.get(name, [])
        ctx.run(fi, lambda ip, s: ([lines(ip, s, fi, 'the list of lines')] + args, {}),
                stubs={prl.qual: stub_any(labels=['doc'])} if prl else {}, monitors=mon)
