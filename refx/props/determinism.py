"""C08: nothing but the input decides the references."""
import ast

from ..common import *  # noqa
from ..common import Monitor, P, PS, argvals, stub_any
from .pipeline import refs_of

SOURCES = frozenset(['set', 'frozenset', 'random', 'secrets', 'uuid', 'uuid4', 'urandom', 'time', 'datetime', 'date', 'id', 'hash', 'environ',
                     'getenv', 'locale', 'listdir', 'glob', 'scandir', 'iterdir', 'walk', 'open', 'fdopen', 'popen', 'Popen', 'run', 'Counter',
                     'check_output', 'read_text', 'getpid', 'shuffle', 'choice', 'sample', 'intersection', 'union', 'difference', 'SET!',
                     'getpreferredencoding', 'getdefaultencoding', 'TextIOWrapper', 'strxfrm', 'strcoll', 'hex', 'getuser', 'gethostname'])
WHAT = {'setorder': 'the iteration order of a set', 'setjoin': 'the iteration order of a set', 'random': 'a random number', 'time': 'the clock',
        'id': 'the identity of an object', 'hash': 'the hash of an object', 'env': 'the environment', 'locale': 'the locale', 'fs': 'the order of a directory'}
BAD = frozenset(WHAT)


def in_class(parts, i):
    """is hole i of a pattern inside a character class"""
    depth = False
    for p in parts[:i]:
        if not isinstance(p, str):
            continue
        k = 0
        while k < len(p):
            if p[k] == '\\':
                k += 2
                continue
            if p[k] == '[' and not depth:
                depth = True
            elif p[k] == ']' and depth:
                depth = False
            k += 1
    return depth


def inert(stmts):
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                continue
            if isinstance(s.value, ast.Call) and any(x in ast.unparse(s.value.func).lower() for x in ('log', 'print', 'warn', 'debug')):
                continue
        return False
    return True


class Det(Monitor):
    def __init__(self, ctx, root):
        super().__init__(ctx)
        self.root = root
        self.tests = {}

    def on_effect(self, ip, st, node, info):
        self.ctx.count('effects_seen')

    def on_test(self, ip, st, node, info):
        labs = info['labels'] & BAD
        fi = ip.stack[-1][0] if ip.stack else None
        if not labs or id(node) in self.tests or fi is None:
            return
        self.tests[id(node)] = 1
        for b in fi.body:
            for n in ast.walk(b):
                t = getattr(n, 'test', None)
                if t is not None and any(x is node for x in ast.walk(t)):
                    if isinstance(n, ast.If) and inert(n.body) and inert(n.orelse):
                        continue
                    self.ctx.report('decision', ip, node, 'reached from %s: %s decides which path is taken' % (
                        self.root, ' and '.join(sorted({WHAT[x] for x in labs}))))

    def on_regex(self, ip, st, node, info):
        ps = parts_of(info['atom'])
        self.ctx.count('patterns_seen')
        for i, p in enumerate(ps or ()):
            if not isinstance(p, str) and p[2] & (BAD - {'setorder', 'time', 'fs'}):
                labs = p[2] & (BAD - {'setorder', 'time', 'fs'})
                if labs == {'setjoin'} and in_class(ps, i):
                    continue
                self.ctx.report('pattern', ip, node, 'a search pattern depends on %s' % ' and '.join(sorted({WHAT[x] for x in labs})))


def where_in(ip, s, v, labs, depth=0, path='', seen=None):
    """path to a labelled part of a value, for the message"""
    seen = set() if seen is None else seen
    for a in v:
        if a[0] == 'R':
            if a[1] in seen or depth > 6:
                continue
            seen.add(a[1])
            o = s.heap.get(a[1])
            if o is None:
                continue
            if o.labels & labs:
                return path + ' (order)', o.site
            for x in list(o.items) + [o.rest]:
                r = where_in(ip, s, x, labs, depth + 1, path + '[]', seen) if isinstance(x, frozenset) else None
                if r:
                    return r
            for k, (x, _m) in (o.ent or {}).items():
                r = where_in(ip, s, x, labs, depth + 1, path + '.%s' % (k[2] if k[0] == 'C' else '*'), seen)
                if r:
                    return r
        elif a[0] == 'U':
            for x in a[1]:
                r = where_in(ip, s, x, labs, depth + 1, path + '()', seen)
                if r:
                    return r
        elif labels_of_atom(a) & labs:
            return path, None
    return None


def judge(ctx, ip, root, s, v):
    ctx.count('results_judged')
    labs = ip.deep_labels(s, v) & BAD
    # objects of the result made in an order-dependent loop
    for l in sorted(labs):
        r = where_in(ip, s, v, frozenset([l])) or ('', None)
        ctx.report_static('result', '%s %s%s' % (root, WHAT[l], r[0]), r[1] or root, 'the result of %s depends on %s (at %s)' % (root, WHAT[l], r[0] or 'result'))


def pseudo(ctx):
    """functions that build a set: give them the pseudo identifier SET!"""
    g = ctx.callees()
    for f in ctx.prog.funcs:
        if any(isinstance(n, (ast.Set, ast.SetComp)) for b in f.body for n in ast.walk(b)):
            g[f.key][1].add('SET!')


def c08(ctx):
    ctx.rule('no value derived from the iteration order of a set, an object identity or hash, a random number, the clock (except the year), '
             'the locale, a default text encoding or the environment is part of the references returned, of a search pattern (except inside a '
             'character class, where order is immaterial), or of a decision other than whether to log')
    pseudo(ctx)
    base = ctx.slice_stubs(SOURCES, minsize=12, mode='quiet')
    ctx.notes.append('functions from which no source of nondeterminism is reachable: %d' % len(base))

    def go(name, setup, pick=None, extra=None):
        fi = ctx.need(name)
        if fi is None:
            return
        st = dict(base)
        st.update(extra or {})
        st.pop(fi.qual, None)
        ip, rets, excs = ctx.run(fi, setup, stubs=st, monitors=[Det(ctx, name)], track_order=True, maxstates=6,
                                 mime_values=('text/plain', 'application/pdf'))
        for s, v in rets:
            judge(ctx, ip, name, s, pick(v) if pick else v)

    def first(v):
        return frozenset(x for a in v for x in (a[1][0] if a[0] == 'U' and a[1] else V(a)))
    pr = ctx.fn('parse_references')
    ps = {pr.qual: lambda ip, st, fi, a, k, n: [(st, V(('U', (V(ip.new_list(st, n, rest=V(ip.new_dict(st, n, {}, tag='ref', restk=V(S(ip.svn(n, 'k'))),
          rest=V(ip.new_list(st, n, rest=V(S(ip.svn(n, 'v'))), tag='vals')))), labels=ip.deep_labels(st, a[0]) if a else NOL, tag='refs')),
          V(top(ip.svn(n)))))))]} if pr else {}
    gk = ctx.fn('get_kbs')
    kinds = set()
    for f in ctx.prog.funcs:        # the names of the knowledge bases
        for b in f.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == 'kbs' and isinstance(n.slice, ast.Constant):
                    kinds.add(n.slice.value)

    def kbs(ip, st, fi, a, k, n):
        # contents unknown, but the knowledge base of special journals is a set
        ent = {const(x): (V(ip.new_set(st, n, V(S(ip.svn(n, 'sj'), ['kb'])), tag='sj') if x == 'special_journals' else top(ip.svn(n, x), frozenset(['kb']))), True)
               for x in sorted(kinds, key=str)}
        return [(st, V(ip.new_dict(st, n, ent, tag='kbs')))]
    sets = gk is not None and (lambda f: f is not None and any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') in ('set', 'frozenset') or isinstance(x, (ast.Set, ast.SetComp))
                                                               for b in f.body for x in ast.walk(b)))(ctx.fn('build_special_journals_kb'))
    go('parse_references', lambda ip, s: ([V(ip.new_list(s, pr.node, rest=PS('line', ['doc'])))], {}), first, {gk.qual: kbs} if sets else {})
    go('parse_references', lambda ip, s: ([V(ip.new_list(s, pr.node, rest=PS('line', ['doc'])))], {}), first)
    go('extract_references_from_file', lambda ip, s: ([PS('path', ['path'])], {}), None, ps)
    go('extract_references_from_string', lambda ip, s: ([PS('text', ['doc'])], dict(is_only_references=V(TRUE_A, FALSE_A))), None, ps)
    go('extract_journal_reference', lambda ip, s: ([PS('text', ['doc'])], {}))
    low = {}
    for n in ('extract_references_from_string', 'extract_references_from_url', 'extract_journal_reference', 'extract_references_from_file'):
        f = ctx.fn(n)
        if f is not None:
            low[f.qual] = stub_any(raises=False)
    svc = lambda ip, s: ([P('data', ['doc']), P('journal_kb_data')], {})  # noqa
    for n in ('extract_references_from_list', 'extract_journal_info', 'extract_references_from_text', 'extract_references_from_file_url'):
        go(n, svc, None, low)
    go('get_kbs', lambda ip, s: ([P('custom')], {}), lambda v: EMPTY)
