"""C18: every loop makes progress."""
import ast
import itertools as it

from ..common import *  # noqa
from ..common import Monitor
from ..words import word
from . import lines

PURE_METHODS = {
    'search', 'match', 'fullmatch', 'findall', 'finditer', 'sub', 'subn', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition',
    'start', 'end', 'span', 'group', 'groups', 'groupdict', 'find', 'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith',
    'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'title', 'isspace', 'isdigit', 'isalpha', 'isupper', 'islower', 'isalnum',
    'format', 'join', 'get', 'keys', 'values', 'items', 'copy', 'encode', 'decode', 'expand', 'translate', 'zfill', 'capitalize',
    'debug', 'info', 'warning', 'isnumeric', 'isdecimal', 'removeprefix', 'removesuffix', 'compile', 'bit_length'}
PURE_FUNCS = {'len', 'int', 'str', 'float', 'bool', 'abs', 'min', 'max', 'sum', 'sorted', 'list', 'tuple', 'set', 'dict', 'frozenset',
              'range', 'enumerate', 'zip', 'any', 'all', 'repr', 'ord', 'chr', 'isinstance', 'print', 'reversed', 'type', 'divmod', 'round'}
MUTATING = {'append', 'insert', 'extend', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault', 'popitem', 'popleft',
            'appendleft', 'sort', 'reverse', 'read', 'readline', 'seek', 'send', 'put'}


def names(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def targets(st):
    return {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def base(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def depends(loop):
    """names on which the end of the loop depends: those of its condition, of the tests around exits and around
    changes of such names, and what their new values are computed from"""
    D = names(loop.test)
    sts = []      # (tests around, statement)

    def walk(body, around):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            sts.append((around, s))
            inner = around
            if isinstance(s, (ast.If, ast.While)):
                inner = around + [s.test]
            elif isinstance(s, ast.For):
                inner = around + [s.iter]
            for f in ('body', 'orelse', 'finalbody'):
                walk(getattr(s, f, []) or [], inner)
            for h in getattr(s, 'handlers', []) or []:
                # left by an exception: what the statements of the body compute with
                t = [x.value for x in s.body if isinstance(x, (ast.Assign, ast.Expr, ast.AugAssign)) and x.value]
                walk(h.body, inner + t)
    walk(loop.body, [])
    for around, s in sts:
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            for t in around:
                D |= names(t)
    for _ in range(20):
        n = len(D)
        for around, s in sts:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and targets(s) & D:
                D |= names(s)
                for t in around:
                    D |= names(t)
            elif isinstance(s, ast.For) and names(s.target) & D:
                D |= names(s.iter)
            elif isinstance(s, ast.With) and any(i.optional_vars is not None and names(i.optional_vars) & D for i in s.items):
                for i in s.items:
                    D |= names(i)
            elif isinstance(s, ast.Expr) and names(s) & D and any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in PURE_METHODS and base(x.func) in D
                    for x in ast.walk(s)):
                D |= names(s)
                for t in around:
                    D |= names(t)
        if len(D) == n:
            break
    return D


class Undecided(Exception):
    pass


class LoopPaths:
    """the ways through the body of a loop, back to its head, that leave what its end depends on as it was"""

    def __init__(self, ctx, fn, loop, D):
        self.ctx, self.fn, self.loop, self.D = ctx, fn, loop, D
        self.alias = self.aliases()
        self.derived = self.derive()
        self.npaths = 0

    # ---------------------------------------------------------------- facts about the function
    def aliases(self):
        out = set(self.D)
        for x in ast.walk(self.fn):
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Name, ast.Attribute, ast.Subscript)):
                r = base(x.value)
                ts = targets(x)
                if r in self.D:
                    out |= ts
                if ts & self.D and r:
                    out.add(r)
        return out

    def derive(self):
        """names that always hold the value of one expression over others"""
        out = {}
        inside, before = {}, {}
        for x in ast.walk(self.fn):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.withitem)):
                for t in self.bound(x):
                    n = getattr(x, 'lineno', None)
                    if n is None:
                        inside.setdefault(t, []).append(None)
                        continue
                    e = ast.unparse(x.value) if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                        isinstance(x.targets[0], ast.Name) and x.value is not None else None
                    if e is not None and t in names(x.value):
                        e = None
                    if self.loop.lineno <= n <= self.loop.end_lineno:
                        inside.setdefault(t, []).append(e)
                    elif n < self.loop.lineno:
                        before.setdefault(t, []).append((n, e))
        for t, es in inside.items():
            if t in before and None not in es and len(set(es)) == 1 and max(before[t], key=lambda q: q[0])[1] == es[0]:
                out[t] = es[0]
        return out

    def bound(self, x):
        if isinstance(x, ast.Assign):
            return {n for t in x.targets for n in targets(t)}
        if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            return targets(x.target)
        return targets(x.optional_vars) if x.optional_vars is not None else set()

    # ---------------------------------------------------------------- calls
    def pure(self, call, depth=0):
        """does not change anything, and gives the same for the same arguments"""
        f = call.func
        if isinstance(f, ast.Attribute):
            return f.attr in PURE_METHODS
        if not isinstance(f, ast.Name):
            return False
        if f.id in PURE_FUNCS:
            return True
        if depth > 3:
            return False
        fi = self.ctx.fn(f.id)
        if fi is None or not isinstance(fi.node, ast.FunctionDef):
            return False
        ps = {a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs + fi.node.args.posonlyargs}
        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.Delete, ast.With)):
                return False
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                return False
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'add', 'insert') and base(x.func) not in ps and \
                        isinstance(x.func.value, ast.Name) and x.func.value.id in targets(fi.node):
                    continue
                if isinstance(x.func, ast.Name) and x.func.id == f.id:
                    return False
                if not self.pure(x, depth + 1):
                    return False
        return True

    def changes(self, node, relevant):
        """an expression or statement that may change what the end depends on other than by assigning to a name"""
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and not self.pure(x):
                b = base(x.func) if isinstance(x.func, ast.Attribute) else None
                if relevant or b in self.alias:
                    return True
                if any(names(a) & self.alias for a in list(x.args) + [k.value for k in x.keywords]) and \
                        not (isinstance(x.func, ast.Attribute) and x.func.attr in MUTATING and b is not None):
                    return True
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) and base(x) in self.alias:
                return True
            elif isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
        return False

    # ---------------------------------------------------------------- paths
    # a path: events ('a', names, reads, const) / ('t', expr, outcome) / ('x',); facts: text -> bool
    def seq(self, body, paths, out):
        for s in body:
            if not paths:
                return []
            if len(paths) > 4000:
                raise Undecided
            paths = self.stmt(s, paths, out)
        return paths

    def stmt(self, s, paths, out):
        if isinstance(s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Assert)):
            return paths
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            if isinstance(s, ast.Break):
                out['brk'] += paths
            return []
        if isinstance(s, ast.Continue):
            out['cont'] += paths
            return []
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            return [p for p in (self.assign(s, p) for p in paths) if p is not None]
        if isinstance(s, (ast.Expr, ast.Delete)):
            if isinstance(s, ast.Delete) and names(s) & self.alias or self.changes(s, False):
                return []
            return [q for p in paths for q in [self.walrus(s, p)] if q is not None]
        if isinstance(s, ast.If):
            a = self.seq(s.body, self.assume(s.test, True, paths), out)
            b = self.seq(s.orelse, self.assume(s.test, False, paths), out)
            return a + b
        if isinstance(s, (ast.While, ast.For)):
            touched = targets(s) & self.D
            if not touched and not any(self.changes(x, False) for x in s.body + [s.iter if isinstance(s, ast.For) else s.test]):
                # its exits to outer levels matter only for return
                return paths
            before = paths
            if isinstance(s, ast.For):
                if self.changes(s.iter, bool(targets(s.target) & self.D)):
                    return []
                paths = [q for p in paths for q in [self.event(p, targets(s.target), names(s.iter), None)] if q is not None]
            else:
                paths = self.assume(s.test, True, paths)
            skip = []
            if isinstance(s, ast.While) and not s.orelse and all(
                    self.step(x, self.bound(x)) is not None for x in ast.walk(s)
                    if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.withitem)) and self.bound(x) & self.D):
                # a scan: it may also stop at once
                skip = self.assume(s.test, False, before)
            o = {'brk': [], 'cont': []}
            r = self.seq(s.body, paths, o)
            # one round
            r = r + o['cont']
            if isinstance(s, ast.While):
                r = self.assume(s.test, False, r)
            r = r + skip
            return (self.seq(s.orelse, r, out) if s.orelse else r) + o['brk']
        if isinstance(s, ast.With):
            for i in s.items:
                if self.changes(i.context_expr, False):
                    return []
                if i.optional_vars is not None:
                    paths = [q for p in paths for q in [self.event(p, targets(i.optional_vars), names(i.context_expr), None)] if q is not None]
            sup = any('suppress' in ast.unparse(i.context_expr) for i in s.items)
            r = self.seq(s.body, paths, out)
            if sup and not (set().union(*[targets(x) for x in s.body]) & self.D) and not any(self.changes(x, False) for x in s.body):
                return paths
            return r
        if isinstance(s, ast.Try):
            r = self.seq(s.body, paths, out)
            r = self.seq(s.orelse, r, out)
            assigned = set().union(*[targets(x) for x in s.body]) if s.body else set()
            if not assigned & self.D and not any(self.changes(x, False) for x in s.body):
                for h in s.handlers:
                    r = r + self.seq(h.body, paths, out)
            return self.seq(s.finalbody, r, out) if s.finalbody else r
        raise Undecided

    def walrus(self, e, p):
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                rel = bool(targets(x.target) & self.D)
                if rel and self.changes(x.value, True):
                    return None
                p = self.event(p, targets(x.target), names(x.value), None)
                if p is None:
                    return None
        return p

    def assign(self, s, p):
        ts = self.bound(s)
        rel = bool(ts & self.D)
        if self.changes(s, rel):
            return None
        p = self.walrus(s, p)
        if p is None or not rel:
            return p
        v = s.value
        if v is None:
            return p
        reads = names(v)
        if isinstance(s, ast.AugAssign):
            reads = reads | ts
        const = None
        if isinstance(s, ast.Assign) and isinstance(v, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets):
            const = (v.value,)
        if isinstance(s, ast.Assign) and isinstance(v, ast.Name) and ts == {v.id}:
            return p
        d = self.step(s, ts)
        if d is not None:
            p = dict(p, ev=p['ev'] + [('i', frozenset(ts), d)])
            return self.forget(p, ts)
        if len(ts) == 1 and next(iter(ts)) in self.derived and not isinstance(s, ast.AugAssign):
            # still the value of the same expression; changed only if something in it was
            if not (reads & p['set']):
                return p
        return self.event(p, ts & self.D, reads, const)

    def step(self, s, ts):
        """v += c, v = v + c"""
        if len(ts) != 1:
            return None
        t = next(iter(ts))

        def num(e):
            return e.value if isinstance(e, ast.Constant) and type(e.value) is int else None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            op, c = s.op, num(s.value)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and \
                isinstance(s.value.left, ast.Name) and s.value.left.id == t:
            op, c = s.value.op, num(s.value.right)
        else:
            return None
        if c is None or not isinstance(op, (ast.Add, ast.Sub)):
            return None
        return c if isinstance(op, ast.Add) else -c

    def event(self, p, ts, reads, const):
        ts = ts & self.D
        if not ts:
            return p
        p = dict(p, ev=p['ev'] + [('a', frozenset(ts), frozenset(reads & self.D), const)], set=p['set'] | ts)
        return self.forget(p, ts, const)

    def forget(self, p, ts, const=None):
        facts = {k: v for k, v in p['facts'].items() if not (v[1] & ts)}
        consts = {k: v for k, v in p['consts'].items() if k not in ts}
        if const is not None:
            for t in ts:
                consts[t] = const
        return dict(p, facts=facts, consts=consts)

    def norm(self, e, outcome):
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, outcome = e.operand, not outcome
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            for a, b in neg.items():
                if isinstance(e.ops[0], a):
                    return ast.Compare(e.left, [b()], e.comparators), not outcome
        return e, outcome

    def evaluate(self, e, consts):
        """truth of a test from constants, None if not known"""
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            return bool(consts[e.id][0]) if e.id in consts else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.evaluate(e.operand, consts)
            return None if v is None else not v
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            def val(x):
                if isinstance(x, ast.Constant):
                    return (x.value,)
                return consts.get(x.id) if isinstance(x, ast.Name) else None
            a, b = val(e.left), val(e.comparators[0])
            if a is None or b is None:
                return None
            op = type(e.ops[0])
            try:
                return {ast.Eq: lambda: a[0] == b[0], ast.NotEq: lambda: a[0] != b[0], ast.Is: lambda: a[0] is b[0],
                        ast.IsNot: lambda: a[0] is not b[0], ast.Lt: lambda: a[0] < b[0], ast.LtE: lambda: a[0] <= b[0],
                        ast.Gt: lambda: a[0] > b[0], ast.GtE: lambda: a[0] >= b[0]}[op]()
            except (KeyError, TypeError):
                return None
        return None

    def assume(self, e, outcome, paths):
        e, outcome = self.norm(e, outcome)
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And) == outcome
            if conj:
                for v in e.values:
                    paths = self.assume(v, outcome, paths)
                return paths
            res = []
            cur = paths
            for v in e.values:
                res += self.assume(v, outcome, cur)
                cur = self.assume(v, not outcome, cur)
            return res
        res = []
        for p in paths:
            if self.changes(e, bool(names(e) & self.D)):
                continue
            p = self.walrus(e, p)
            if p is None:
                continue
            v = self.evaluate(e, p['consts'])
            if v is not None and v != outcome:
                continue
            txt = ast.unparse(e)
            if txt in p['facts'] and p['facts'][txt][0] != outcome:
                continue
            ns = names(e)
            q = dict(p, facts=dict(p['facts'], **{txt: (outcome, ns)}), ev=p['ev'] + [('t', e, outcome, frozenset(ns & self.D))])
            res.append(q)
        return res

    def stuck(self, p):
        """taking this way again leaves everything as it was, and the same way is taken again"""
        done = set()
        end = p['consts']
        # "none of the listed cases": whether there is another one is not known here
        others = {}
        for ev in p['ev']:
            if ev[0] == 't' and not ev[2]:
                for x in ast.walk(ev[1]):
                    if isinstance(x, ast.Constant) and isinstance(x.value, (str, int)) and not isinstance(x.value, bool):
                        for n in ev[3]:
                            others.setdefault(n, set()).add(ast.unparse(ev[1]))
        if any(len(x) >= 3 for x in others.values()):
            return False
        delta = {}
        for ev in p['ev']:
            if ev[0] == 'a':
                done |= ev[1]
            if ev[0] == 'i':
                t = next(iter(ev[1]))
                if t in done:
                    continue
                if t in p['set']:
                    return False
                delta[t] = delta.get(t, 0) + ev[2]
        if any(delta.values()):
            return False
        done = set()
        for ev in p['ev']:
            if ev[0] == 'i':
                continue
            if ev[0] == 'a':
                if ev[2] & p['set'] - done:
                    return False
                done |= ev[1]
            else:
                late = (ev[3] & p['set']) - done
                if late:
                    v = self.evaluate(ev[1], {k: c for k, c in end.items() if k in late or k not in p['set']})
                    if v is None or v != ev[2]:
                        return False
        return True

    def run(self):
        start = [{'ev': [], 'set': frozenset(), 'facts': {}, 'consts': {}}]
        out = {'brk': [], 'cont': []}
        body = self.seq(self.loop.body, self.assume(self.loop.test, True, start), out)
        ends = body + out['cont']
        self.npaths = len(ends)
        return [p for p in ends if self.stuck(p)]


def check_loop(ctx, key, fn, loop):
    D = depends(loop)
    inner = [x for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal))]
    if inner and any(set(x.names) & D for x in inner):
        return
    lp = LoopPaths(ctx, fn, loop, D)
    try:
        bad = lp.run()
    except Undecided:
        ctx.count('loops_not_decided')
        return
    ctx.count('loops_decided')
    if not bad:
        return
    p = min(bad, key=lambda q: len(q['ev']))
    way = ', '.join('%s%s' % ('' if e[2] else 'not ', ast.unparse(e[1])) for e in p['ev'] if e[0] == 't')
    ctx.report_static('no-progress', '%s:%s' % (key, ast.unparse(loop.test)), '%s:%d' % (key, loop.lineno),
                      'the loop can go round without changing anything its end depends on (%s), on the way: %s' % (
                          ', '.join(sorted(D)[:8]), way[:400] or 'always'))


class Endless(Exception):
    pass


class NoEnd(Monitor):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.hit = None

    def on_noend(self, ip, st, node, info):
        h = node.test if isinstance(node, ast.While) else node.iter if hasattr(node, 'iter') else node
        self.hit = (ip.site(h), info['why'])
        raise Endless


def c18(ctx):
    ctx.rule('for every way through the body of a loop with a condition, back to its head: it changes something that the end of the loop '
             'depends on (condition, tests around exits, and what these are computed from), or is not taken twice in a row')
    for fi in ctx.prog.fnode.values():
        if not isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.While):
                owner = fi.node
                for y in ast.walk(fi.node):
                    if isinstance(y, ast.FunctionDef) and y is not fi.node and y.lineno <= x.lineno <= y.end_lineno:
                        owner = None
                if owner is not None:
                    check_loop(ctx, fi.key, fi.node, x)
    words(ctx)


def words(ctx):
    ctx.rule('lines of up to three (thorough: four) recognised items with opaque text, propagated through the line parser: every loop ends, '
             'no list keeps growing while it is iterated over')

    def linked(L, ip, st, args, kwargs, node):
        return [(st, V(word('recid')))]
    bad = set()
    for linker in (None, linked):
        L = lines.Lines(ctx, linker=linker)
        if not L.ok:
            return
        mon = NoEnd(ctx)
        L.ip.monitors.append(mon)
        gen = it.chain(open_tags(), lines.dup_scenarios(ctx), lines.scenarios(ctx) if linker is None else ())
        for tokens in gen:
            if ctx.incomplete and 'time budget exhausted' in ctx.incomplete:
                return
            mon.hit = None
            try:
                L.parse(tokens)
            except Endless:
                L = lines.Lines(ctx, linker=linker)
                L.ip.monitors.append(mon)
            ctx.count('lines_parsed')
            if mon.hit:
                ctx.report_static('no-end', mon.hit[0], mon.hit[0], 'line [%s]: the loop does not end: %s' % (lines.describe(tokens), mon.hit[1]))
                bad.add(mon.hit[0])
                if len(bad) >= 3 or ctx.counts.get('lines_without_end', 0) > 20:
                    return
                ctx.count('lines_without_end')
    small(ctx)


def open_tags():
    """opening tags without their closing tag, alone and in front of an item"""
    for k in ('JOURNAL', 'JOURNALibid', 'REPORTNUMBER', 'ARXIV', 'AUTHstnd', 'AUTHetal', 'AUTHincl', 'VOL', 'YR', 'PG', 'SER'):
        t = mkstr(['<cds.%s>' % k] + list(word('open')[1]) + [' '])
        yield [lines.txt(0), t]
        yield [t, lines.txt(1)]
        yield [lines.txt(0), t, lines.It('REPORTNUMBER', 1), lines.txt(1)]
        yield [t, t, lines.It('JOURNAL', 1)]


SMALL = [
    ('find_all', [['a w a', 'a'], ['aa', 'a'], ['x', 'a']]),
]


def small(ctx):
    """helpers with a loop of their own, on short texts"""
    for name, cases in SMALL:
        fi = ctx.fn(name)
        if fi is None or len(fi.node.args.args) != len(cases[0]):
            continue
        mon = NoEnd(ctx)
        ip = ctx.session(monitors=[mon], words=True)
        for args in cases:
            mon.hit = None
            try:
                ctx.scenario(ip, fi, lambda ip, s: ([cst(a) for a in args], {}))
            except Endless:
                pass
            ctx.count('texts_scanned')
            if mon.hit:
                ctx.report_static('no-end', mon.hit[0], mon.hit[0], '%s%r: the loop does not end: %s' % (name, tuple(args), mon.hit[1]))
                break
