"""C05: merging link data from a PDF into the references."""
import itertools

from .. import words
from ..common import *  # noqa
from ..common import Monitor, P, PS, argvals, stub_any
from ..words import word
from .pipeline import ENV, refs_of

PDF = dict(env=dict(ENV, http=200), mime_values=('application/pdf',))
BROAD = ('Exception', 'BaseException')


def w(*name, pre='W', post='Z'):
    return mkstr([pre] + list(word('-'.join(map(str, name)))[1]) + [post])


def key(i):
    """texkeys that are neither in alphabetical order nor in its reverse"""
    return const(('Weber:2003ab', 'Adams:2011cd', 'Quigg:1998ef', 'Bauer:2015gh')[i])


def base_stubs(ctx, refs):
    """everything up to the parsed references"""
    out = {}

    def parsed(ip, st, fi, args, kwargs, node):
        return [(st, V(('U', (refs(ip, st, node), V(ip.new_dict(st, node, {}, tag='stats'))))))]
    for name, stub in (('parse_references', parsed), ('get_plaintext_document_body', stub_any(raises=False)),
                       ('get_reference_section_beginning', stub_any(raises=False)),
                       ('find_numeration_in_body', stub_any(raises=False)),
                       ('extract_references_from_fulltext', lambda ip, st, fi, a, k, node: [(st, V(('U', (
                           V(ip.new_list(st, node, [V(w('line'))], tag='lines')), V(top(ip.svn(node, 1))), V(top(ip.svn(node, 2)))))))])):
        f = ctx.fn(name)
        if f is None:
            ctx.incomplete.append('%s not found' % name)
            return None
        out[f.qual] = stub
    return out


class Broken(Monitor):
    """remember, on the path, that a failure of the PDF library was caught by a catch-all"""

    def here(self, ip):
        return any(f is not None and f.key in self.inside for f in [ip.stack[-1][0]])

    def on_handler(self, ip, st, node, info):
        t = node.type
        import ast
        names = [] if t is None else [ast.unparse(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        if names and not any(n.split('.')[-1] in BROAD for n in names):
            return
        for s, e in info['hits']:
            if str(e.kind) != 'io' and (self.here(ip) or 'pypdf' in str(e.kind)):
                self.ctx.count('library_failures_caught')
                s.setg('broken', True)


def texkeyed(s, v):
    """does some reference returned carry a texkey"""
    for o in refs_of(s, v):
        if o is None or isinstance(o, tuple):
            continue
        for x in list(o.items) + ([o.rest] if o.rest else []):
            for a in x:
                if a[0] == 'R' and a[1] in s.heap and s.heap[a[1]].kind == 'dict' and const('texkey') in s.heap[a[1]].ent:
                    return True
    return False


def c05(ctx):
    ctx.rule('no failure of the PDF library, nor of working on the objects it returns, leaves the file call; where one was caught the '
             'references returned carry no link data')
    fi = ctx.need('extract_references_from_file')
    ex = ctx.need('extract_texkeys_and_urls_from_pdf')
    if fi is None or ex is None:
        return

    def one(ip, st, node):
        return V(ip.new_list(st, node, [V(ip.new_dict(st, node, {const('raw_ref'): (V(ip.new_list(st, node, [PS('raw')], tag='rl')), True)}, tag='ref'))], tag='refs'))
    stubs = base_stubs(ctx, one)
    if stubs is None:
        return
    mon = Broken(ctx)
    mon.inside = ctx.reach(ex)
    ip, rets, excs = ctx.run(fi, lambda ip, s: ([PS('path', ['path'])], {}), stubs=stubs, monitors=[mon], maxstates=24, **PDF)
    inside = ctx.reach(ex)
    inq = {f.qual for f in ctx.prog.funcs if f.key in inside}
    if ip is not None:
        for s, e in excs:
            k = str(e.kind)
            ctx.count('escapes_judged')
            where = str(e.site)
            if k.startswith('ext:pypdf') or (k.startswith('ext:') and 'references/pdf.py' in where):
                ctx.report_static('pdf-failure-escapes', where, where, 'a failure (%s) of the PDF library at %s leaves the call' % (e.cls, where))
            elif s.g('broken') and k in ('none', 'nomatch', 'nopart', 'attr', 'unbound'):
                ctx.report_static('pdf-failure-escapes', where, where, 'after a failure of the PDF library %s (%s) is raised at %s' % (e.cls, k, where))
            elif k in ('none', 'nomatch', 'nopart', 'attr', 'unbound', 'nogroup') and any(where.split(':')[-2].strip() == q.split('.')[-1] if ':' in where else False for q in inq):
                ctx.report_static('pdf-failure-escapes', where, where, '%s (%s) while working on PDF objects leaves the call' % (e.cls, k))
        for s, v in rets:
            ctx.count('exits_judged')
            if s.g('broken') and texkeyed(s, v):
                ctx.report_static('enriched-after-failure', ex.qual, ex.qual,
                                  'link data is merged although reading the PDF failed half-way')
            if s.g('broken') and any(a[0] == 'C' for a in v):
                ctx.report_static('no-references-after-failure', fi.qual, fi.qual, 'a failure of the PDF library costs the references')
    merge(ctx, fi, ex)


def merge(ctx, fi, ex):
    ctx.rule('for every number of references and of targets up to %d, with and without links on either side: link data is merged exactly if '
             'the numbers agree, by position, and changes nothing but the URL list and the texkey' % (3 if ctx.tier == 'thorough' else 2))
    N = 3 if ctx.tier == 'thorough' else 2
    ip0 = ctx.session(maxstates=24, words=True, **PDF)
    OWN = {'none': None, 'one': (0,), 'two': (0, 1), 'shared': ('s',), 'twice': (0, 0)}
    TGT = {'none': None, 'empty': (), 'one': (0,), 'two': (0, 1), 'shared': ('s',), 'mixed': ('s', 0)}

    def url(side, i, x):
        return w('url', 'shared', i, pre='S%d' % i) if x == 's' else w('url', side, i, x, pre='%s%d%s' % (side[0].upper(), i, x))
    cases = []
    for n, m in itertools.product(range(N + 1), repeat=2):
        if n == m == 1:
            cases += [((o,), (t,)) for o in OWN for t in TGT]
        elif n == m:
            cases += [(('none', 'one', 'shared')[:n], ('one', 'shared', 'two')[:n]), (('one', 'none', 'two')[:n], ('none', 'two', 'one')[:n]), (('none', 'two', 'one')[:n], ('two', 'none', 'shared')[:n])]
        else:
            cases.append((('none', 'one', 'shared')[:n], ('one', 'shared', 'two')[:m]))
    for owns, tgts in cases:
        orig = []

        def refs(ip, st, node):
            out = []
            for i, o in enumerate(owns):
                ent = {}

                def put(k, vals):
                    ent[const(k)] = (V(ip.new_list(st, node, [V(x) for x in vals], tag=('rl', i, k))), True)
                put('raw_ref', [w('raw', i)])
                put('misc', [w('misc', i, 0), w('misc', i, 1)])
                put('journal_title', [w('jt', i)])
                if OWN[o] is not None:
                    put('url', [url('own', i, x) for x in OWN[o]])
                out.append(V(ip.new_dict(st, node, ent, tag=('ref', i))))
            return V(ip.new_list(st, node, out, tag='refs'))

        def targets(ip, st, f, args, kwargs, node):
            out = []
            for i, t in enumerate(tgts):
                ent = {const('texkey'): (V(key(i)), True)}
                if TGT[t] is not None:
                    us = [url('target', i, x) for x in TGT[t]]
                    a = ip.new_set(st, node, frozenset(us), tag=('us', i))
                    ip.must_add(st, a[1], [V(u) for u in us])
                    ent[const('urls')] = (V(a), True)
                out.append(V(ip.new_dict(st, node, ent, tag=('tk', i))))
            return [(st, V(ip.new_list(st, node, out, tag='tks')))]
        stubs = base_stubs(ctx, refs)
        stubs[ex.qual] = targets
        rets, excs = ctx.scenario(ip0, fi, lambda ip, s: ([PS('path', ['path'])], {}), stubs=stubs)
        what = '%d references, %d targets (links: %s / %s)' % (len(owns), len(tgts), '+'.join(owns), '+'.join(tgts))

        def bad(rule, msg):
            ctx.report_static(rule, fi.qual, fi.qual, '%s: %s' % (what, msg))
        for s, v in rets:
            for o in refs_of(s, v):
                if o is None or isinstance(o, tuple) or o.rest:
                    ctx.count('imprecise_results')
                    continue
                ctx.count('merges_judged')
                if len(o.items) != len(owns):
                    bad('reference-count', '%d references are returned' % len(o.items))
                    continue
                for i, r in enumerate(o.items):
                    d = plain(s, r)
                    if d is None:
                        ctx.count('imprecise_results')
                        continue
                    own = [url('own', i, x) for x in OWN[owns[i]] or ()]
                    want = {'raw_ref': [w('raw', i)], 'misc': [w('misc', i, 0), w('misc', i, 1)], 'journal_title': [w('jt', i)]}
                    for k in want:
                        if d.get(k, want[k] if k in d else None) != want[k]:
                            bad('field-changed', 'reference %d: field %s is changed' % (i, k))
                    for k in d:
                        if k not in want and k not in ('url', 'texkey'):
                            bad('field-changed', 'reference %d: field %s is added' % (i, k))
                    if len(owns) == len(tgts):
                        tg = [url('target', i, x) for x in TGT[tgts[i]] or ()]
                        tk = single(s.heap[single(r)[1]].ent[const('texkey')][0]) if 'texkey' in d else None
                        if tk is not None and (tk[0] == 'C' or words.wordy(tk)):
                            bad('texkey-shape', 'reference %d gets a texkey that is not a list' % i)
                        elif 'texkey' not in d:
                            bad('not-merged', 'reference %d gets no texkey' % i)
                        elif d['texkey'] is not None and d['texkey'] != [key(i)]:
                            bad('wrong-position', 'reference %d does not get the texkey of the target at its position' % i)
                        exp = set(own) | set(tg)
                    else:
                        if 'texkey' in d:
                            bad('merged-anyway', 'reference %d gets a texkey' % i)
                        exp = set(own)
                    u = d.get('url', [])
                    if u is None:
                        ctx.count('imprecise_results')
                        continue
                    if exp - set(u):
                        bad('url-lost', 'reference %d: a URL is missing' % i)
                    if set(u) - exp:
                        bad('url-foreign', 'reference %d gets a URL that is not its own' % i)
                    if len(owns) == len(tgts) and len(set(u)) != len(u):
                        bad('url-duplicate', 'reference %d: a URL appears twice' % i)
        for s, e in excs:
            if str(e.kind) in ('key!', 'index!', 'none', 'nomatch', 'nopart', 'unbound', 'attr'):
                bad('merge-raises', '%s is raised at %s' % (e.cls, e.site))


def plain(s, r):
    """reference -> {field: [atoms] or None if unknown}"""
    a = single(r)
    if a is None or a[0] != 'R' or a[1] not in s.heap:
        return None
    o = s.heap[a[1]]
    if o.kind != 'dict' or getattr(o, 'restk', None):
        return None
    out = {}
    for k, (v, must) in o.ent.items():
        if k[0] != 'C':
            return None
        x = single(v)
        lst = s.heap.get(x[1]) if x is not None and x[0] == 'R' else None
        if lst is None or lst.kind != 'list' or lst.rest or not must:
            out[k[2]] = None
            continue
        its = [single(y) for y in lst.items]
        out[k[2]] = None if any(y is None or not (y[0] == 'C' or words.wordy(y)) for y in its) else its
    return out
