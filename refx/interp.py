"""Abstract interpreter over the Python syntax tree.

Whole-program, context-sensitive (calls are analysed in their calling context),
flow- and path-sensitive (bounded disjunctions), with loop fixpoints, recency
abstraction for the heap and explicit exceptional control flow.  Nothing of the
analysed program is executed.
"""
import ast
import re
import sys
import time
from collections import namedtuple

from . import rx as rxm
from .dom import *  # noqa
from .dom import _ATOMTAGS, VT
from .front import BUILTINS, Program
from .models import Models

sys.setrecursionlimit(20000)

Exc = namedtuple('Exc', 'cls kind site node val')


class Out:
    __slots__ = ('norm', 'rets', 'brks', 'conts')

    def __init__(self):
        self.norm = []
        self.rets = []
        self.brks = []
        self.conts = []


class Budget(Exception):
    pass


MAXSTATES = 12
MAXUNROLL = 14
MAXITER = 9


class Interp(Models):
    def __init__(self, prog, stubs=None, monitors=(), maxstates=MAXSTATES, budget=600.0):
        self.prog = prog
        self.stubs = stubs or {}
        self.monitors = list(monitors)
        self.charwise = False
        self.excs = []
        self.stack = []          # (FuncInfo|None, fid, callnode)
        self.ctxs = {}
        self.ctx = 0
        self.modstate = State()
        self.loaded = {}
        self.maxstates = maxstates
        self.vdepth = {}
        self.stats = dict(calls=0, stmts=0, extcalls=0, topcalls=0)
        self.reached = set()
        self.extseen = set()
        self.digvn = set()
        self.topsites = {}
        self.t0 = time.time()
        self.budget = budget
        self.keyfacts = ()
        self.handling = []       # exceptions being handled
        self.yield_cb = []
        self.compat = {}
        self.in_module = 0
        self.liveness = {}
        self.constres = None
        self.idxcnt = {}
        self.idxlin = {}
        self.unord = 0
        self.gcmin = 100
        self.words = False
        self.track_order = False
        self.rxhook = None
        self.extstubs = {}
        self.allocs = {}

    # -- positions ------------------------------------------------------------
    def where(self, node=None):
        fi = self.stack[-1][0] if self.stack else None
        mod = fi.mod if fi else (self.curmod if hasattr(self, 'curmod') else '?')
        return '%s:%s:%s' % (self.prog.files.get(mod, mod), getattr(node, 'lineno', '?'),
                             fi.qual[len(fi.mod) + 1:] if fi else '<module>')

    def site(self, node=None):
        """line-number free construct id"""
        fi = self.stack[-1][0] if self.stack else None
        mod = fi.mod if fi else getattr(self, 'curmod', '?')
        txt = getattr(node, '_txt', None)
        if txt is None:
            try:
                txt = ast.unparse(node) if node is not None else ''
            except Exception:  # noqa
                txt = ''
            txt = ' '.join(txt.split())
            if node is not None:
                node._txt = txt
        return '%s:%s: %s' % (self.prog.files.get(mod, mod), fi.qual[len(fi.mod) + 1:] if fi else '<module>', txt[:90])

    def path(self):
        return ' > '.join(f.qual.split('.')[-1] for f, _, _ in self.stack if f)

    def emit(self, kind, st, node, **info):
        for m in self.monitors:
            m.on(kind, self, st, node, info)

    # -- value numbers ----------------------------------------------------------
    # structured value numbers are interned as ('v', k)
    def mkvn(self, node, *parts):
        return VT.intern(self, node, parts)

    def vstruct(self, vn):
        if isinstance(vn, tuple) and len(vn) == 2 and vn[0] == 'v':
            return VT.tab[vn[1]][0]
        return None

    def vroot(self, vn):
        return None

    def nid(self, node):
        r = getattr(node, '_nid', None)
        if r is None:
            if node is None:
                return 0
            Interp.NID += 1
            r = node._nid = Interp.NID
        return r

    NID = 0

    def svn(self, node, *extra):
        return ('s', self.nid(node), self.ctx) + extra

    def grounded(self, vn):
        return VT.ground(vn)

    def atom_grounded(self, a):
        if a[0] == 'C':
            return True
        if a[0] in ('S', 'N', 'B', 'T', 'XI', 'MT'):
            if a[0] in ('N', 'B') and a[1] is None:
                return False
            return VT.ground(a)
        return False

    # -- exceptions ---------------------------------------------------------------
    def raise_(self, st, cls, kind, node, val=None, fork=True):
        e = Exc(cls, kind, self.site(node), node, val)
        s = st.fork() if fork else st
        self.emit('raise', s, node, exc=e)
        self.excs.append((s, e))

    def none_kind(self, st, v):
        """where a None in v comes from: a failed match, a group that took no part, or elsewhere"""
        ms = [a for a in v if a[0] == 'MT']
        if ms:
            return 'nomatch' if any(self.can_fail(st, m) for m in ms) else 'none'
        gs = []
        for a in v:
            if a[0] == 'S':
                p = self.vstruct(a[1][0][1]) if len(a[1]) == 1 and not isinstance(a[1][0], str) else None
                if not p or p[0] != 'grp':
                    return 'none'
                gs.append(p)
            elif a != NONE_A:
                return 'none'
        for p in gs:
            if sum(q[1] == p[1] for q in gs) == 1 and self.can_miss(st, p[1], p[2]):
                return 'nopart'
        return 'none'

    def can_miss(self, st, m, g):
        """can the group be absent from the match, given what is known of its other groups"""
        R = rxm.REG[m[1]]
        if not R.known or R.holes or g[0] != 'C' or R.always(g[2]) is not False:
            return False
        there = {R.gid(f[2][2]) for f in st.facts if f[0] == 'grp' and f[1] == m and f[3] == 1 and f[2][0] == 'C'}
        me = R.gid(g[2])
        if me in there:
            return False
        vs = rxm.vectors(R.tree, 300, there | {me})
        return vs is not None and any(me not in x and there <= x for x in vs)

    def about(self, x, s, d=0):
        """does the atom (a test or a match) say something about the text s"""
        if x == s:
            return True
        if d > 6 or not isinstance(x, tuple):
            return False
        if len(x) == 2 and x[0] == 'v':
            x = self.vstruct(x) or ()
        return any(self.about(y, s, d + 1) for y in x if isinstance(y, tuple))

    def can_fail(self, st, m):
        """is there a subject the pattern does not match, as far as the subject is known"""
        R = rxm.REG[m[1]]
        s = m[3]
        if not R.known or R.holes or s[0] != 'S':
            return False
        for f in st.facts:
            if f[0] == 't' and f[1] != s and self.about(f[1], s):
                return False
        p = self.vstruct(s[1][0][1]) if len(s[1]) == 1 and not isinstance(s[1][0], str) else None
        if len(s[1]) != 1:
            return False
        if p and p[0] == 'grp':
            R2 = rxm.REG[p[1][1]]
            t = R2.group_tree(p[2][2]) if R2.known and not R2.holes and p[2][0] == 'C' else None
            xs = rxm.samples(t) if t is not None else None
            if not xs:
                return False
            try:
                c = re.compile(''.join(R.parts), R.flags)
            except re.error:
                return False
            return any(c.search(x) is None for x in xs)
        return True

    def compact_excs(self):
        if len(self.excs) <= 6:
            return
        d = {}
        for s, e in self.excs:
            k = (e.cls, e.kind, e.site, self.reskey(s))
            if k in d:
                d[k] = (join_states(d[k][0], s), e)
            else:
                d[k] = (s, e)
        if len(d) > 40:
            d2 = {}
            for (c, kd, site, rk), (s, e) in d.items():
                k = (c, kd, rk)
                if k in d2:
                    d2[k] = (join_states(d2[k][0], s), d2[k][1])
                else:
                    d2[k] = (s, e)
            d = d2
        self.excs = list(d.values())

    # -- state merging ----------------------------------------------------------------
    def reskey(self, st):
        r = tuple(sorted(((oid, o.m('state')) for oid, o in st.heap.items()
                          if o.kind == 'res' and 'open' in (o.m('state') or ())), key=repr))
        f = tuple(sorted((x for x in st.facts if x[0] in self.keyfacts), key=repr)) if self.keyfacts else ()
        return (r, st.gh, f)

    def sig(self, v):
        if not isinstance(v, frozenset):
            return None
        if len(v) == 1:
            (a,) = v
            if a[0] == 'C':
                if a[2] is None:
                    return 'None'
                if a[2] is True:
                    return 'T'
                if a[2] is False:
                    return 'F'
                if a[1] == 'str' and a[2] == '':
                    return 'e'
            elif a is UNBOUND_A or a[0] == 'UNB':
                return 'unb'
        elif len(v) == 0:
            return 'bot'
        return None

    def keyof(self, st, fid, level=0):
        k = [self.reskey(st)]
        if level == 0 and fid is not None:
            f = st.frames.get(fid, {})
            for n in f:
                v = f[n]
                s = self.sig(v)
                if s:
                    k.append((n, s))
            k[1:] = sorted(k[1:])
        return tuple(k)

    def merge(self, states, fid=None):
        if len(states) <= 1:
            return states
        if fid is None:
            fid = self.stack[-1][1] if self.stack else None
        if self.words and not self.in_module and len(states) <= self.maxstates:
            return states
        for level in (0, 1):
            d = {}
            for s in states:
                k = self.keyof(s, fid, level)
                if k in d:
                    d[k] = join_states(d[k], s)
                else:
                    d[k] = s
            if len(d) <= self.maxstates:
                break
        return list(d.values())

    # -- modules ---------------------------------------------------------------------
    def load_module(self, name):
        if name in self.loaded:
            return self.loaded[name]
        fid = ('m', name)
        self.loaded[name] = fid
        st = self.modstate
        st.wframes()[fid] = {}
        tree = self.prog.modules[name]
        saved = (self.stack, self.ctx, self.excs, getattr(self, 'curmod', None), self.monitors)
        self.stack = [(None, fid, None)]
        self.ctx = self._ctx(0, ('mod', name))
        self.excs = []
        self.curmod = name
        self.monitors = []
        self.in_module += 1
        states = [st]
        for stmt in tree.body:
            out = self.exec_stmt(stmt, states)
            # module level is analysed as straight-line code: keep one state
            ss = out.norm
            if not ss:
                break
            s = ss[0]
            for t in ss[1:]:
                s = join_states(s, t)
            states = [s]
            # nested imports may have replaced modstate's content
            self.modstate = s
        self.modstate = states[0]
        self.in_module -= 1
        self.stack, self.ctx, self.excs, self.curmod, self.monitors = saved
        return fid

    def load_all(self):
        for m in sorted(self.prog.modules):
            self.load_module(m)
        # everything allocated at import time persists between calls
        heap = {}
        for oid, o in self.modstate.heap.items():
            heap[oid] = o.but(labels=o.labels | {'persist'})
        self.modstate.heap = heap
        self.modstate._hs = False
        State.GDIRTY.clear()
        return self

    def _ctx(self, parent, nodeid):
        k = (parent, nodeid)
        r = self.ctxs.get(k)
        if r is None:
            r = self.ctxs[k] = len(self.ctxs) + 1
        return r

    # -- allocation -----------------------------------------------------------------------
    def alloc(self, st, node, obj, tag=None):
        oid = ('o', self.nid(node), self.ctx, tag)
        if self.words and not self.in_module and oid in st.heap:
            i = self.allocs[oid] = self.allocs.get(oid, 0) + 1
            if i < 400:
                oid = oid + ('w', i)
        if oid in st.heap and not self.in_module:
            st.rename({}, {oid: oid + ('old',)})
        elif oid in st.heap:
            i = 0
            while oid + (i,) in st.heap:
                i += 1
            oid = oid + (i,)
        if obj.site is None:
            obj = obj.but(site=self.site(node) if not self.in_module else None)
        st.put(oid, obj)
        return ('R', oid)

    def new_list(self, st, node, items=(), rest=EMPTY, tag=None, cnt='auto', **kw):
        if cnt == 'auto':
            cnt = (len(items), ()) if not rest else None
        return self.alloc(st, node, Obj('list', items=tuple(items), rest=rest, cnt=cnt, **kw), tag)

    def new_dict(self, st, node, ent=None, rest=EMPTY, restk=EMPTY, tag=None, **kw):
        return self.alloc(st, node, Obj('dict', ent=ent or {}, rest=rest, restk=restk, **kw), tag)

    def new_set(self, st, node, elems=EMPTY, tag=None, **kw):
        return self.alloc(st, node, Obj('set', rest=elems, **kw), tag)

    def gc(self, st, extra=()):
        if len(st.heap) < self.gcmin:
            return
        live = set()
        work = []

        def addv(v):
            for a in v:
                adda(a)

        def adda(a):
            k = a[0]
            if k == 'R':
                if a[1] not in live:
                    live.add(a[1])
                    work.append(a[1])
            elif k == 'U':
                for v in a[1]:
                    addv(v)
            elif k in ('BM', 'BF'):
                adda(a[1])
        for f in st.frames.values():
            for v in f.values():
                if isinstance(v, frozenset):
                    addv(v)
        for v in extra:
            addv(v)
        for oid, o in st.heap.items():
            if o.kind in ('res', 'gen') or 'persist' in o.labels or 'caller' in o.labels:
                adda(('R', oid))
        while work:
            oid = work.pop()
            o = st.heap.get(oid)
            if o is None:
                continue
            for x in o.items:
                if isinstance(x, frozenset):
                    addv(x)
            addv(o.rest)
            addv(o.restk)
            if o.ent:
                for k, (v, _m) in o.ent.items():
                    adda(k)
                    addv(v)
            if o.attrs:
                for v in o.attrs.values():
                    if isinstance(v, frozenset):
                        addv(v)
        st.heap = {k: v for k, v in st.heap.items() if k in live}
        self.gcmin = max(100, 2 * len(st.heap))
        st._hs = False

    # -- names ----------------------------------------------------------------------------------
    def lookup(self, st, name, node=None, quiet=False):
        fi, fid, _ = self.stack[-1]
        if fi is not None:
            f = st.frames.get(fid, {})
            if name in f:
                return f[name]
            if name in fi.locals:
                return UNBOUND
            # closures
            pf = f.get('@parent')
            while pf is not None:
                g = st.frames.get(pf)
                if g is None:
                    break
                if name in g:
                    return g[name]
                pf = g.get('@parent')
            mod = fi.mod
        else:
            mod = self.curmod
        g = st.frames.get(('m', mod), {})
        if name in g:
            return g[name]
        if name in ('__name__',):
            return cst(mod)
        if name in ('__file__',):
            return V(S(('file', mod)))
        if name in BUILTINS:
            if name in ('True', 'False', 'None'):
                return cst({'True': True, 'False': False, 'None': None}[name])
            return V(('X', name))
        return V(top(('undef', name)))

    def bind(self, st, name, v):
        fi, fid, _ = self.stack[-1]
        if fi is None:
            st.setvar(fid, name, v)
            return
        if name in fi.globals:
            mfid = ('m', fi.mod)
            self.emit('global_store', st, None, name=name, mod=fi.mod, value=v)
            st.setvar(mfid, name, v)
            return
        if name in fi.nonlocals:
            pf = st.frames[fid].get('@parent')
            while pf is not None:
                g = st.frames.get(pf)
                if g is None:
                    break
                if name in g:
                    st.setvar(pf, name, v)
                    return
                pf = g.get('@parent')
            return
        st.setvar(fid, name, v)

    # -- blocks and statements ----------------------------------------------------------------------
    def exec_block(self, stmts, states):
        out = Out()
        cur = states
        for s in stmts:
            if not cur:
                break
            o = self.exec_stmt(s, cur)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            cur = self.merge(o.norm)
        out.norm = cur
        if len(out.rets) > 10:
            out.rets = self.merge_rets(out.rets)
        return out

    def exec_stmt(self, stmt, states):
        if time.time() - self.t0 > self.budget:
            raise Budget()
        self.stats['stmts'] += 1
        m = getattr(self, 'st_' + type(stmt).__name__, None)
        if m is None:
            out = Out()
            out.norm = states
            return out
        return m(stmt, states)

    def _each(self, states, fn):
        out = Out()
        for s in states:
            for r in fn(s):
                out.norm.append(r)
        return out

    def st_Expr(self, n, states):
        return self._each(states, lambda s: [t for t, _ in self.ev(n.value, s)])

    def st_Pass(self, n, states):
        o = Out()
        o.norm = states
        return o

    def st_Global(self, n, states):
        return self.st_Pass(n, states)

    st_Nonlocal = st_Global

    def st_Break(self, n, states):
        o = Out()
        o.brks = states
        return o

    def st_Continue(self, n, states):
        o = Out()
        o.conts = states
        return o

    def st_Return(self, n, states):
        o = Out()
        for s in states:
            if n.value is None:
                o.rets.append((s, NONE))
            else:
                for t, v in self.ev(n.value, s):
                    o.rets.append((t, v))
        return o

    def st_Assign(self, n, states):
        def f(s):
            res = []
            # parallel fast path
            for t, v in self.ev(n.value, s):
                cur = [t]
                for tgt in n.targets:
                    nxt = []
                    for c in cur:
                        nxt += self.assign(tgt, v, c, n)
                    cur = nxt
                res += cur
            return res
        return self._each(states, f)

    def st_AnnAssign(self, n, states):
        if n.value is None:
            return self.st_Pass(n, states)

        def f(s):
            res = []
            for t, v in self.ev(n.value, s):
                res += self.assign(n.target, v, t, n)
            return res
        return self._each(states, f)

    def st_AugAssign(self, n, states):
        def f(s):
            res = []
            load = self._as_load(n.target)
            for t, lv in self.ev(load, s):
                for u, rv in self.ev(n.value, t):
                    # in-place list extension
                    la = single(lv)
                    if isinstance(n.op, ast.Add) and la and la[0] == 'R' and u.heap.get(la[1]) is not None \
                            and u.heap[la[1]].kind == 'list':
                        for w, _r in self.call_method(u, la, 'extend', [rv], {}, n):
                            res += self.assign(n.target, lv, w, n)
                        continue
                    if isinstance(n.op, (ast.BitOr,)) and la and la[0] == 'R' and u.heap.get(la[1]) is not None \
                            and u.heap[la[1]].kind in ('set', 'dict'):
                        for w, _r in self.call_method(u, la, 'update', [rv], {}, n):
                            res += self.assign(n.target, lv, w, n)
                        continue
                    for w, v in self.binop(n.op, lv, rv, u, n):
                        res += self.assign(n.target, v, w, n)
            return res
        return self._each(states, f)

    def _as_load(self, t):
        k = ('load', self.nid(t))
        r = self.compat.get(k)
        if r is None:
            import copy
            r = copy.copy(t)
            r.ctx = ast.Load()
            self.compat[k] = r
        return r

    def st_Delete(self, n, states):
        def f(s):
            cur = [s]
            for t in n.targets:
                nxt = []
                for c in cur:
                    if isinstance(t, ast.Name):
                        self.bind(c, t.id, UNBOUND)
                        nxt.append(c)
                    elif isinstance(t, ast.Subscript):
                        for d, bv in self.ev(t.value, c):
                            if isinstance(t.slice, ast.Slice):
                                for a in bv:
                                    sl = self.const_slice(t.slice, d)
                                    o = d.heap.get(a[1]) if a[0] == 'R' else None
                                    if sl is not None and len(bv) == 1 and o is not None and o.kind == 'list' \
                                            and not o.rest and not o.multi:
                                        it = list(o.items)
                                        del it[sl]
                                        self.mutate(d, a[1], t, 'delslice')
                                        d.put(a[1], o.but(items=tuple(it), cnt=(len(it), ())))
                                        continue
                                    self.list_havoc(d, a, t, 'delslice')
                                nxt.append(d)
                                continue
                            for e, kv in self.ev(t.slice, d):
                                nxt += self.del_item(e, bv, kv, t)
                    else:
                        nxt.append(c)
                cur = nxt
            return cur
        return self._each(states, f)

    def st_If(self, n, states):
        out = Out()
        ts, fs = [], []
        for s in states:
            a, b = self.cond(n.test, s)
            ts += a
            fs += b
        ts = self.merge(ts)
        fs = self.merge(fs)
        self.emit('branch', None, n, t=ts, f=fs)
        for sts, body in ((ts, n.body), (fs, n.orelse)):
            if not sts:
                continue
            if not body:
                out.norm += sts
                continue
            o = self.exec_block(body, sts)
            out.norm += o.norm
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
        return out

    def st_Assert(self, n, states):
        out = Out()
        for s in states:
            a, b = self.cond(n.test, s)
            out.norm += a
            for t in b:
                self.raise_(t, 'AssertionError', 'assert', n)
        return out

    def st_Raise(self, n, states):
        out = Out()
        for s in states:
            if n.exc is None:
                if self.handling:
                    for e in self.handling[-1]:
                        self.excs.append((s.fork(), e))
                else:
                    self.raise_(s, 'RuntimeError', 'py', n)
                continue
            for t, v in self.ev(n.exc, s):
                for u in self.merge([x for x, _ in (self.ev(n.cause, t) if n.cause else [(t, None)])]):
                    for a in v:
                        cls = self.exc_class_of(u, a)
                        self.raise_(u, cls, 'user', n, val=V(a))
        return out

    def exc_class_of(self, st, a):
        if a[0] == 'X':
            return a[1]
        if a[0] == 'K':
            return self.prog.classes[a[1]][2]
        if a[0] == 'XI':
            return a[1]
        if a[0] == 'R':
            o = st.heap.get(a[1])
            if o is not None and o.kind == 'inst':
                return o.m('cls') or 'Exception'
        return 'Exception'

    def st_FunctionDef(self, n, states):
        def f(s):
            r = []
            for t, v in self.make_func(n, s):
                self.bind(t, n.name, v)
                r.append(t)
            return r
        return self._each(states, f)

    def make_func(self, n, st):
        fi = self.prog.fnode[id(n)]
        a = n.args
        defs = a.defaults + [d for d in a.kw_defaults if d is not None]
        fid = self.stack[-1][1] if self.stack[-1][0] is not None else None
        res = []
        for s, vals in self.evs(defs, st):
            if defs:
                # defaults live as long as the function object
                dk = ('d', fi.key) if fid is None else ('d', fi.key, self.ctx)
                fr = s.wframes()
                fr[dk] = {str(i): v for i, v in enumerate(vals)}
                fr[dk]['@n'] = None
                for v in vals:
                    for at in v:
                        if at[0] == 'R' and fid is None and at[1] in s.heap:
                            o = s.heap[at[1]]
                            s.put(at[1], o.but(labels=o.labels | {'persist', 'default:' + fi.qual}))
            v = V(('F', fi.key, fid))
            for d in reversed(getattr(n, 'decorator_list', [])):
                v = self.decorate(s, fi, d, v)
            res.append((s, v))
        return res

    def decorate(self, s, fi, d, v):
        name = ''
        try:
            name = ast.unparse(d.func if isinstance(d, ast.Call) else d)
        except Exception:  # noqa
            pass
        last = name.split('.')[-1]
        if last in ('contextmanager', 'staticmethod', 'lru_cache', 'cache', 'wraps', 'property',
                    'classmethod', 'abstractmethod'):
            return v
        # unknown decorator: apply it
        r = EMPTY
        for t, dv in self.ev(d, s):
            for a in dv:
                if a[0] in ('F', 'BF'):
                    for _u, w in self.call(t, a, [v], {}, d):
                        r = join(r, w)
                else:
                    r = join(r, v)
        return r or v

    def st_ClassDef(self, n, states):
        def f(s):
            ck = self.prog.cnode[id(n)]
            # class attributes
            fr = {}
            for x in n.body:
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    rs = self.ev(x.value, s)
                    if rs:
                        fr[x.targets[0].id] = rs[0][1]
                elif isinstance(x, (ast.FunctionDef,)):
                    for _t, v in self.make_func(x, s):
                        fr[x.name] = v
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                    rs = self.ev(x.value, s)
                    if rs:
                        fr[x.target.id] = rs[0][1]
            s.wframes()[('k', ck)] = fr
            self.bind(s, n.name, V(('K', ck)))
            return [s]
        return self._each(states, f)

    def st_Import(self, n, states):
        def f(s):
            for al in n.names:
                nm = al.name
                if nm.split('.')[0] == self.prog.package:
                    if self.in_module:
                        self._import_mod(nm, s)
                    v = V(('M', nm if al.asname else nm.split('.')[0]))
                else:
                    v = V(('X', nm if al.asname else nm.split('.')[0]))
                self.bind(s, al.asname or nm.split('.')[0], v)
            return [s]
        return self._each(states, f)

    def _import_mod(self, nm, s):
        if nm in self.prog.modules and nm not in self.loaded:
            self.modstate = s
            self.load_module(nm)
            t = self.modstate
            s.frames, s.heap, s._fs, s._hs = t.frames, t.heap, True, True
            t._fs = t._hs = True
            self.modstate = s

    def st_ImportFrom(self, n, states):
        def f(s):
            mod = n.module or ''
            if n.level:
                cur = (self.stack[-1][0].mod if self.stack[-1][0] else self.curmod).split('.')
                isp = self.prog.files.get('.'.join(cur), '').endswith('__init__.py')
                basep = cur[:len(cur) - n.level + (1 if isp else 0)]
                mod = '.'.join(basep + ([mod] if mod else []))
            if mod.split('.')[0] == self.prog.package:
                if self.in_module:
                    self._import_mod(mod, s)
                for al in n.names:
                    g = s.frames.get(('m', mod), {})
                    if al.name in g:
                        v = g[al.name]
                    elif mod + '.' + al.name in self.prog.modules:
                        if self.in_module:
                            self._import_mod(mod + '.' + al.name, s)
                        v = V(('M', mod + '.' + al.name))
                    else:
                        v = V(top(('imp', mod, al.name)))
                    self.bind(s, al.asname or al.name, v)
            else:
                for al in n.names:
                    self.bind(s, al.asname or al.name, V(('X', self.canon(mod + '.' + al.name))))
            return [s]
        return self._each(states, f)

    # -- try / with ---------------------------------------------------------------------------------
    def st_Try(self, n, states):
        out = Out()
        saved = self.excs
        self.excs = []
        o = self.exec_block(n.body, states)
        self.compact_excs()
        raised = self.excs
        self.excs = []
        norm, rets, brks, conts = o.norm, o.rets, o.brks, o.conts
        # handlers
        pend = raised
        for h in n.handlers:
            nxt = []
            hits = []
            for s, e in pend:
                r = self.handler_matches(h, s, e)
                if r is True:
                    hits.append((s, e))
                elif r is None:
                    hits.append((s.fork(), e))
                    nxt.append((s, e))
                else:
                    nxt.append((s, e))
            pend = nxt
            self.emit('handler', None, h, hits=hits)
            if hits:
                hs = []
                for s, e in hits:
                    if h.name:
                        v = e.val if e.val is not None else V(('XI', e.cls, ('exc', self.nid(h), self.ctx), NOL))
                        self.bind(s, h.name, v)
                    hs.append(s)
                self.handling.append(self._dedupe_exc([e for _, e in hits]))
                oh = self.exec_block(h.body, self.merge(hs))
                self.handling.pop()
                if h.name:
                    for s in oh.norm:
                        self.bind(s, h.name, UNBOUND)
                ohn = oh.norm
                out.rets += oh.rets
                out.brks += oh.brks
                out.conts += oh.conts
                out.norm += ohn
        if n.orelse and norm:
            oe = self.exec_block(n.orelse, norm)
            norm = oe.norm
            rets = rets + oe.rets
            brks = brks + oe.brks
            conts = conts + oe.conts
        out.norm += norm
        out.rets += rets
        out.brks += brks
        out.conts += conts
        raised_out = pend + self.excs
        self.excs = []
        if n.finalbody:
            fin = Out()

            def run(sts):
                if not sts:
                    return []
                fo = self.exec_block(n.finalbody, sts)
                fin.rets += fo.rets
                fin.brks += fo.brks
                fin.conts += fo.conts
                return fo.norm
            nn = run(self.merge(out.norm)) if out.norm else []
            rr = []
            for (s, v) in self.merge_rets(out.rets):
                rr += [(t, v) for t in run([s])]
            bb = run(self.merge(out.brks))
            cc = run(self.merge(out.conts))
            ee = []
            self2 = self.excs
            groups = {}
            for s, e in raised_out:
                groups.setdefault((e.cls, e.kind, e.site, self.reskey(s)), []).append((s, e))
            for k, lst in groups.items():
                s, e = lst[0]
                for t, _ in lst[1:]:
                    s = join_states(s, t)
                ee += [(t, e) for t in run([s])]
            raised_out = ee + self.excs
            self.excs = []
            out.norm, out.rets, out.brks, out.conts = nn, rr + fin.rets, bb + fin.brks, cc + fin.conts
        self.excs = saved + raised_out
        return out

    st_TryStar = st_Try

    def _dedupe_exc(self, es):
        seen = {}
        for e in es:
            seen.setdefault((e.cls, e.kind, e.site), e)
        return list(seen.values())

    def handler_matches(self, h, s, e):
        if h.type is None:
            return True
        names = self.handler_classes(h.type, s)
        res = False
        for nme in names:
            r = self.isa(e.cls, nme)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def handler_classes(self, t, s):
        saved = self.excs
        self.excs = []
        names = []
        for _st, v in self.ev(t, s.fork()):
            for a in v:
                if a[0] == 'U':
                    for x in a[1]:
                        for b in x:
                            names.append(self.exc_class_of(_st, b))
                else:
                    names.append(self.exc_class_of(_st, a))
        self.excs = saved
        return names

    def st_With(self, n, states):
        return self.with_items(n, list(n.items), n.body, states)

    st_AsyncWith = st_With

    def with_items(self, n, items, body, states):
        if not items:
            return self.exec_block(body, states)
        it = items[0]
        out = Out()
        for s in states:
            for t, v in self.ev(it.context_expr, s):
                for a in v:
                    u = t.fork() if len(v) > 1 else t
                    o = self.with_one(n, it, a, u, lambda sts: self.with_items(n, items[1:], body, sts))
                    out.norm += o.norm
                    out.rets += o.rets
                    out.brks += o.brks
                    out.conts += o.conts
        out.norm = self.merge(out.norm)
        return out

    def with_one(self, n, it, a, st, run_body):
        """one context manager `a`"""
        def enter(s, val):
            if it.optional_vars is not None:
                return self.assign(it.optional_vars, val, s, n)
            return [s]
        o = st.heap.get(a[1]) if a[0] == 'R' else None
        if o is not None and o.kind == 'gen':
            return self.with_generator(n, a[1], o, st, run_body, enter)
        if o is not None and o.kind == 'inst' and o.m('suppress') is not None:
            out = self._guarded(run_body, enter(st, V(a)))
            res, excs = out
            names = o.m('suppress')
            keep = []
            for s, e in excs:
                r = False
                for nm in names:
                    q = self.isa(e.cls, nm)
                    r = True if q is True else (r if q is False else (None if r is not True else True))
                    if r is True:
                        break
                if r is True:
                    res.norm.append(s)
                elif r is None:
                    res.norm.append(s.fork())
                    keep.append((s, e))
                else:
                    keep.append((s, e))
            self.excs += keep
            return res
        if o is not None and o.kind == 'inst' and o.m('ck') is not None:
            res = Out()
            for t, ev_ in self.call_method(st, a, '__enter__', [], {}, n):
                r, excs = self._guarded(run_body, enter(t, ev_))
                nn = []
                for s in r.norm:
                    nn += [x for x, _ in self.call_method(s, a, '__exit__', [NONE, NONE, NONE], {}, n)]
                rr = []
                for s, v in r.rets:
                    rr += [(x, v) for x, _ in self.call_method(s, a, '__exit__', [NONE, NONE, NONE], {}, n)]
                bb = []
                for s in r.brks:
                    bb += [x for x, _ in self.call_method(s, a, '__exit__', [NONE, NONE, NONE], {}, n)]
                cc = []
                for s in r.conts:
                    cc += [x for x, _ in self.call_method(s, a, '__exit__', [NONE, NONE, NONE], {}, n)]
                for s, e in excs:
                    xv = V(('XI', e.cls, ('exc', self.nid(n), self.ctx), NOL))
                    for x, rv in self.call_method(s, a, '__exit__', [xv, xv, xv], {}, n):
                        tv, fv = self.truth(rv, x)
                        if tv and not fv:
                            nn.append(x)
                        else:
                            if tv:
                                nn.append(x.fork())
                            self.excs.append((x, e))
                res.norm += nn
                res.rets += rr
                res.brks += bb
                res.conts += cc
            return res
        # resources and anything else: enter yields the object itself, exit closes
        if o is not None and o.kind == 'res':
            val = V(a)
        else:
            val = V(top(self.svn(n, 'enter'), labels_of_atom(a))) if a[0] in ('T', 'X', 'XI') else V(a)
            self.emit('with_unknown', st, n, atom=a)
        r, excs = self._guarded(run_body, enter(st, val))

        def close(s):
            if a[0] == 'R' and a[1] in s.heap and s.heap[a[1]].kind == 'res':
                self.close_res(s, a[1], n)
            return s
        res = Out()
        res.norm = [close(s) for s in r.norm]
        res.rets = [(close(s), v) for s, v in r.rets]
        res.brks = [close(s) for s in r.brks]
        res.conts = [close(s) for s in r.conts]
        for s, e in excs:
            self.excs.append((close(s), e))
        return res

    def _guarded(self, run_body, states):
        saved = self.excs
        self.excs = []
        o = run_body(states)
        self.compact_excs()
        ex = self.excs
        self.excs = saved
        return o, ex

    def with_generator(self, n, oid, o, st, run_body, enter):
        """`with` on a generator-based context manager: the body is analysed at
        the yield point of the generator."""
        res = Out()
        pend = {}
        caller = (list(self.stack), self.ctx)

        def cb(s, val, ynode):
            inner = (self.stack, self.ctx)
            self.stack, self.ctx = caller
            r, excs = self._guarded(run_body, enter(s, val))
            self.stack, self.ctx = inner
            resumed = []
            for t in r.norm:
                resumed.append(t)
            for kind, lst in (('ret', r.rets), ('brk', [(x, None) for x in r.brks]),
                              ('cont', [(x, None) for x in r.conts])):
                for t, v in lst:
                    k = ('pend', self.nid(n), len(pend))
                    pend[k] = (kind, v)
                    t.setg(('pend', self.nid(n)), k)
                    resumed.append(t)
            for t, e in excs:
                self.excs.append((t, e))
            return resumed
        results = self.run_generator(st, oid, o, n, cb)
        for s in results:
            k = s.g(('pend', self.nid(n)))
            if k is None:
                res.norm.append(s)
            else:
                s.setg(('pend', self.nid(n)), None)
                kind, v = pend[k]
                if kind == 'ret':
                    res.rets.append((s, v))
                elif kind == 'brk':
                    res.brks.append(s)
                else:
                    res.conts.append(s)
        return res

    def run_generator(self, st, oid, o, node, cb):
        """run generator body; cb(state, value, node) -> resumed states."""
        fi = self.prog.funcs[o.m('fkey')]
        fid = o.m('fid')
        self.emit('enter', st, node, fi=fi)
        self.stack = self.stack + [(fi, fid, node)]
        saved_ctx = self.ctx
        self.ctx = o.m('ctx')
        self.yield_cb.append((fid, cb))
        st.put(oid, o.setm('done', True))
        saved = self.excs
        self.excs = []
        if o.m('genexp'):
            states = self.run_genexp(fi, st, cb)
        else:
            out = self.exec_block(fi.body, [st])
            states = out.norm + [s for s, _ in out.rets]
        self.compact_excs()
        self.excs = saved + self.excs
        self.yield_cb.pop()
        self.stack = self.stack[:-1]
        self.ctx = saved_ctx
        return self.merge(states)

    # -- loops ----------------------------------------------------------------------------------------
    def st_For(self, n, states):
        out = Out()
        for s in states:
            for t, spec in self.iter_spec(n.iter, s):
                self.loop(n, n.target, spec, t, lambda sts: self.exec_block(n.body, sts), n.orelse, out)
        out.norm = self.merge(out.norm)
        return out

    def iter_spec(self, node, st):
        """evaluate an iterable expression"""
        res = []
        for t, v in self.ev(node, st):
            if len(v) > 1:
                strs = [a for a in v if a[0] == 'S' or (a[0] == 'C' and a[1] == 'str')]
                if len(strs) > 1:
                    labs = NOL
                    for a in strs:
                        labs |= labels_of_atom(a)
                    v = frozenset(a for a in v if a not in strs) | V(S(self.svn(node, 'its'), labs))
                lists = [a for a in v if a[0] == 'R' and a[1] in t.heap and t.heap[a[1]].kind == 'list']
                if len(lists) > 3:
                    v = frozenset(a for a in v if a not in lists)
                    jr, labs = EMPTY, NOL
                    for a in lists:
                        o = t.heap[a[1]]
                        jr = join_all([jr, o.rest] + list(o.items), self.svn(node, 'itl'))
                        labs |= o.labels
                    res.append((t.fork(), self.spec([], jr, None, labs, None)))
            for a in v:
                u = t.fork() if len(v) > 1 else t
                for w, sp in self.spec_of(u, a, node):
                    res.append((w, sp))
        if len(res) > 4:
            d = {}
            for t, sp in res:
                k = self.reskey(t)
                if k in d:
                    u, sq = d[k]
                    c = sp['cnt'] if sp['cnt'] == sq['cnt'] else None
                    d[k] = (join_states(u, t), self.spec(
                        [], join_all([sq['rest'], sp['rest']] + list(sq['items']) + list(sp['items']), self.svn(node, 'itj')),
                        c, sp['labels'] | sq['labels'], sp['src'] if sp['src'] == sq['src'] else None))
                else:
                    d[k] = (t, sp)
            res = list(d.values())
        return res

    def loop(self, n, target, spec, st, body, orelse, out):
        """spec = dict(items=[Value...], rest=Value, cnt=linear length, labels, src)"""
        items, rest = spec['items'], spec['rest']
        cur = [st]
        exits = []
        if len(items) > (150 if self.words else MAXUNROLL):
            rest = join_all([rest] + list(items))
            items = []
        self.emit('loop', st, n, spec=spec)
        unord = 'setorder' in spec['labels']
        if unord:
            self.unord += 1
        try:
            self._loop(n, target, spec, st, body, orelse, out, items, rest, cur, exits)
        finally:
            if unord:
                self.unord -= 1

    def live_list(self, spec, st, rest, items):
        """the list object iterated over, if its elements are read while it may change"""
        a = spec['src']
        if not self.words or rest or not isinstance(a, tuple) or len(a) != 2 or a[0] != 'R':
            return None
        o = st.heap.get(a[1])
        if o is None or o.kind != 'list' or o.multi or o.rest or list(o.items) != list(items):
            return None
        return a[1]

    def _loop(self, n, target, spec, st, body, orelse, out, items, rest, cur, exits):
        live = self.live_list(spec, st, rest, items)
        if live is not None:
            idx, done = 0, []
            while cur and idx < len(items) + 100:
                nxt = []
                for s in cur:
                    o = s.heap.get(live)
                    its = items if o is None or o.kind != 'list' or o.rest else o.items
                    if idx < len(its):
                        nxt += self.assign(target, its[idx], s, n)
                    else:
                        done.append(s)
                if not nxt:
                    cur = []
                    break
                o = body(self.merge(nxt))
                out.rets += o.rets
                exits += o.brks
                cur = self.merge(o.norm + o.conts)
                idx += 1
            else:
                if cur and not done and not exits:
                    self.emit('noend', cur[0], n, why='the list iterated over keeps growing')
            cur = self.merge(done)
            items = ()
        for idx, v in enumerate(items):
            nxt = []
            for s in cur:
                nxt += self.assign(target, v, s, n)
            o = body(self.merge(nxt))
            out.rets += o.rets
            exits += o.brks
            cur = self.merge(o.norm + o.conts)
            if not cur:
                break
        if rest and cur:
            lid = (self.nid(n), self.ctx)
            cur, brk = self.fix_loop(n, target, spec, rest, cur, body, out, lid, bool(items))
            exits += brk
        # normal exhaustion
        if orelse and cur:
            o = self.exec_block(orelse, cur)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            cur = o.norm
        out.norm += cur + exits

    def fresh_elem(self, st, v, lid, path=(), cnt=None):
        """element of an abstract collection, given this iteration's identity"""
        out = []
        for a in v:
            k = a[0]
            if k == 'S':
                out.append(('S', (('H', ('el', lid) + path, labels_of_atom(a)),)))
            elif k == 'N':
                if isinstance(a[1], tuple) and a[1] and a[1][0] == 'idx':
                    vn = ('el', lid) + path + ('idx',)
                    self.idxcnt[vn] = cnt
                    out.append(('N', vn, a[2]))
                else:
                    out.append(('N', ('el', lid) + path, a[2]))
            elif k == 'T':
                out.append(('T', ('el', lid) + path, a[2]))
            elif k == 'B':
                out.append(('B', ('el', lid) + path, a[2]))
            elif k == 'XI':
                out.append(('XI', a[1], ('el', lid) + path, a[3]))
            elif k == 'MT':
                out.append(('MT', a[1], ('el', lid) + path + (a[2][-1] if isinstance(a[2][-1], int) else 0,), a[3]))
            elif k == 'U':
                out.append(('U', tuple(self.fresh_elem(st, x, lid, path + (i,), cnt) for i, x in enumerate(a[1]))))
            elif k == 'R' and a[1] in st.heap and st.heap[a[1]].multi:
                mid = ('mat', lid, a[1])
                o = st.heap[a[1]]
                st.put(mid, o.but(multi=False, cnt=None).setm('mat', True))
                out.append(('R', mid))
            else:
                out.append(a)
        return frozenset(out)

    def end_iter(self, st, lid):
        oidmap = {oid: oid[2] for oid in st.heap if oid[0] == 'mat' and oid[1] == lid}
        vnmap = _ElMap(lid)
        st.rename(vnmap, oidmap)
        # length bookkeeping
        heap = None
        for oid, o in st.heap.items():
            if o.cnt is None and o.m(('st', lid)) is None:
                continue
            if o.kind not in ('list', 'dict', 'set'):
                continue
            own = ('B', lid, oid)
            stash = o.m(('st', lid))
            ment = o.cnt is not None and any(self.sym_mentions(x[0], lid) for x in o.cnt[1])
            if stash is None and not ment:
                continue
            d = None
            if o.cnt is not None and dict(o.cnt[1]) == {own: 1}:
                d = o.cnt[0]
            o2 = o.setm(('st', lid), None)
            if stash is None:
                o2 = o2.but(cnt=None)
            else:
                o2 = o2.but(cnt=stash[0])
                if o2.m(('ld', lid)) is not None and o2.m(('ld', lid)) != d:
                    d = None
                o2 = o2.setm(('ld', lid), d if d is not None else 'conflict')
            if heap is None:
                heap = dict(st.heap)
            heap[oid] = o2
        if heap is not None:
            st.heap = heap
            st._hs = False
        return st

    def sym_mentions(self, x, lid):
        if not isinstance(x, tuple) or not x:
            return False
        if x[0] == 'B' and len(x) == 3 and x[1] == lid:
            return True
        return lid in VT.scan(x)[1]

    def full_cnt(self, o):
        """length of a list with the running loops' base symbols resolved"""
        c = o.cnt
        for _ in range(6):
            if c is None:
                return None
            for sym, k in c[1]:
                if isinstance(sym, tuple) and len(sym) == 3 and sym[0] == 'B':
                    st = o.m(('st', sym[1]))
                    if st is None:
                        return c
                    rest = (c[0], tuple(x for x in c[1] if x[0] != sym))
                    c = lin_add(rest, lin_mul(k, st[0]))
                    break
            else:
                return c
        return c

    def begin_iter(self, st, lid):
        heap = None
        for oid, o in st.heap.items():
            if o.kind == 'list' and o.cnt is not None and not o.multi and 'persist' not in o.labels \
                    and not o.m('view'):
                if heap is None:
                    heap = dict(st.heap)
                # stash keeps the entry length; a conflict from earlier rounds stays
                heap[oid] = o.setm(('st', lid), (o.cnt,)).but(cnt=(0, ((('B', lid, oid), 1),)))
        if heap is not None:
            st.heap = heap
            st._hs = False
        return st

    def finish_loop(self, st, lid, n_iter, broke):
        heap = None
        for oid, o in st.heap.items():
            if o.meta:
                d = o.m(('ld', lid))
                if d is not None:
                    if heap is None:
                        heap = dict(st.heap)
                    if d == 0:
                        c = o.cnt
                    elif d == 'conflict' or broke or n_iter is None or o.cnt is None:
                        c = None
                    else:
                        c = lin_add(o.cnt, lin_mul(d, n_iter))
                    heap[oid] = o.setm(('ld', lid), None).but(cnt=c)
        if heap is not None:
            st.heap = heap
            st._hs = False
        return st

    def fix_loop(self, n, target, spec, rest, states, body, out, lid, after_items):
        inv = self.merge(states)
        fid = self.stack[-1][1]
        last = None
        for it in range(MAXITER):
            saved = self.excs
            self.excs = []
            nxt = []
            for s in inv:
                t = s.fork()
                self.begin_iter(t, lid)
                ev_ = self.fresh_elem(t, rest, lid, (), spec.get('cnt'))
                self.emit('iter', t, n, lid=lid, elem=ev_, spec=spec)
                nxt += self.assign(target, ev_, t, n)
            o = body(self.merge(nxt))
            ends = []
            for s in o.norm + o.conts:
                self.emit('enditer', s, n, lid=lid)
                ends.append(self.end_iter(s.fork(), lid))
            excs = self.excs
            self.excs = saved
            new = self.merge([s for s in inv] + ends, fid)
            if it >= 2:
                new = self.widen(inv, new, lid, it)
            last = (o, excs)
            if self.same_states(inv, new):
                break
            inv = new
        else:
            self.stats['nofix'] = self.stats.get('nofix', 0) + 1
            self.topsites.setdefault('nofix ' + self.where(n), 1)
        o, excs = last
        self.excs = self.excs + excs
        self.compact_excs()
        out.rets += o.rets
        brk = [self._unstash(s.fork(), lid) for s in o.brks]
        for s, _v in o.rets:
            self._unstash(s, lid)
        for s, _e in excs:
            self._unstash(s, lid)
        n_iter = spec.get('cnt')
        if after_items:
            n_iter = None
        fin = [self.finish_loop(s.fork(), lid, n_iter, False) for s in inv]
        return fin, brk

    def _unstash(self, st, lid):
        for oid, o in list(st.heap.items()):
            if o.meta and o.m(('st', lid)) is not None:
                own = ('B', lid, oid)
                stash = o.m(('st', lid))
                c = None
                if o.cnt == (0, ((own, 1),)) and o.m(('ld', lid)) in (None, 0):
                    c = stash[0]          # not touched in this iteration nor before
                st.put(oid, o.setm(('st', lid), None).setm(('ld', lid), None).but(cnt=c))
            elif o.cnt is not None and any(self.sym_mentions(x[0], lid) for x in o.cnt[1]):
                st.put(oid, o.but(cnt=None))
        return st

    def same_states(self, a, b):
        if len(a) != len(b):
            return False
        used = set()
        for s in a:
            for i, t in enumerate(b):
                if i not in used and s.same(t):
                    used.add(i)
                    break
            else:
                return False
        return True

    def widen(self, old, new, lid, it):
        fid = self.stack[-1][1]
        od = {self.keyof(s, fid): s for s in old}
        res = []
        for s in new:
            k = self.keyof(s, fid)
            o = od.get(k)
            if o is None:
                if it >= 5 and old:
                    o = old[0]
                else:
                    res.append(s)
                    continue
            t = s.fork()
            fr = t.wframes()
            for f in list(fr):
                fo = o.frames.get(f)
                fn = fr[f]
                if fo is None or fo is fn:
                    continue
                nf = None
                for name, v in fn.items():
                    if not isinstance(v, frozenset):
                        continue
                    ov = fo.get(name)
                    if ov is not None and ov != v:
                        w = self.widen_value(ov, v, ('w', lid, name), it)
                        if w is not v:
                            if nf is None:
                                nf = dict(fn)
                            nf[name] = w
                if nf is not None:
                    fr[f] = nf
            for oid, ob in list(t.heap.items()):
                oo = o.heap.get(oid)
                if oo is None or oo is ob or oo == ob:
                    continue
                t.put(oid, self.widen_obj(oo, ob, ('w', lid, oid), it))
            res.append(t)
        return res

    def widen_obj(self, a, b, vn, it):
        if b.kind == 'list':
            rest = self.widen_value(a.rest, b.rest, vn, it)
            if len(a.items) != len(b.items):
                rest = join_all([rest] + list(b.items))
                return b.but(items=(), rest=rest)
            return b.but(rest=rest, items=tuple(self.widen_value(x, y, vn + (i,), it)
                                                for i, (x, y) in enumerate(zip(a.items, b.items))))
        if b.kind == 'dict':
            ent = {}
            rest, restk = b.rest, b.restk
            for k, (v, m) in b.ent.items():
                if k in a.ent:
                    ent[k] = (self.widen_value(a.ent[k][0], v, vn + (k,), it), m)
                elif k[0] == 'C':
                    ent[k] = (v, m)
                else:
                    rest = join(rest, v)
                    restk = join(restk, V(k))
            return b.but(ent=ent, rest=self.widen_value(a.rest, rest, vn, it),
                         restk=self.widen_value(a.restk, restk, vn + ('k',), it))
        return b.but(rest=self.widen_value(a.rest, b.rest, vn, it))

    def widen_value(self, old, new, vn, it):
        if old == new:
            return new
        added = new - old
        if not added:
            return new
        out = set()
        labs = NOL
        wide = False
        numw = False
        nl = NOL
        for a in new:
            if a[0] == 'S' and (a in added or len(new) > 6):
                wide = True
                labs |= labels_of_atom(a)
            elif a[0] == 'C' and a[1] == 'str' and a in added and it >= 4:
                wide = True
            elif a[0] == 'N' and a in added or (a[0] == 'C' and a[1] in ('int', 'float') and a in added and it >= 3):
                numw = True
                nl |= labels_of_atom(a)
            elif a[0] == 'T' and a in added:
                out.add(('T', vn, a[2]))
            elif a[0] == 'B' and a in added:
                out.add(('B', None, a[2]))
            elif a[0] == 'U' and a in added and it >= 4:
                # widen component-wise against an old tuple of the same length
                olds = [x for x in old if x[0] == 'U' and len(x[1]) == len(a[1])]
                if olds:
                    out.add(('U', tuple(self.widen_value(olds[0][1][i], join(olds[0][1][i], x), vn + (i,), it)
                                        for i, x in enumerate(a[1]))))
                else:
                    out.add(a)
            elif a[0] == 'MT' and a in added and it >= 4:
                out.add(('MT', a[1], vn, None))
            else:
                out.add(a)
        if wide:
            for a in list(out):
                if a[0] == 'S' and not (a[0] == 'S' and a in old):
                    labs |= labels_of_atom(a)
                    out.discard(a)
            out.add(('S', (('H', vn, labs),)))
        if numw:
            for a in list(out):
                if a[0] == 'N':
                    nl |= a[2]
                    out.discard(a)
            out.add(('N', vn if it < 5 else None, nl))
        r = frozenset(out)
        if len(r) > MAXATOMS:
            r = squash(r, vn)
        return r

    def st_While(self, n, states):
        out = Out()
        inv = self.merge(states)
        if self.words:
            # unroll while the condition can be decided
            fin = []
            cur = inv
            sure = len(cur) == 1
            for _round in range(40):
                ts = []
                for s in cur:
                    t, f = self.cond(n.test, s.fork())
                    ts += t
                    fin += f
                    sure = sure and not f
                if not ts or len(ts) > self.maxstates:
                    break
                o = self.exec_block(n.body, self.merge(ts))
                out.rets += o.rets
                out.norm += o.brks
                cur = self.merge(o.norm + o.conts)
                sure = sure and len(cur) == 1 and not o.rets and not o.brks
                if not cur:
                    ts = []
                    break
            else:
                if sure:
                    self.emit('noend', cur[0], n, why='the condition stays true')
            if not ts:
                if n.orelse and fin:
                    oe = self.exec_block(n.orelse, self.merge(fin))
                    out.rets += oe.rets
                    out.brks += oe.brks
                    out.conts += oe.conts
                    fin = oe.norm
                out.norm = self.merge(out.norm + fin)
                return out
            out = Out()
        fid = self.stack[-1][1]
        lid = (self.nid(n), self.ctx)
        last = None
        for it in range(MAXITER):
            saved = self.excs
            self.excs = []
            ts, fs = [], []
            for s in inv:
                t = s.fork()
                self.begin_iter(t, lid)
                a, b = self.cond(n.test, t)
                ts += a
                fs += b
            o = None
            ends = []
            if ts:
                ts = self.merge(ts)
                self.emit('while_iter', None, n, states=ts, lid=lid)
                o = self.exec_block(n.body, ts)
                self.emit('while_end', None, n, states=o.norm + o.conts, lid=lid)
                ends = [self.end_iter(s.fork(), lid) for s in o.norm + o.conts]
            excs = self.excs
            self.excs = saved
            new = self.merge(list(inv) + ends, fid)
            if it >= 2:
                new = self.widen(inv, new, lid, it)
            last = (o, excs, fs)
            if self.same_states(inv, new):
                break
            inv = new
        else:
            self.stats['nofix'] = self.stats.get('nofix', 0) + 1
            self.topsites.setdefault('nofix ' + self.where(n), 1)
        o, excs, fs = last
        self.excs = self.excs + excs
        self.compact_excs()
        fin = [self._unstash(s.fork(), lid) for s in fs]
        for s, _e in excs:
            self._unstash(s, lid)
        if n.orelse and fin:
            oe = self.exec_block(n.orelse, fin)
            out.rets += oe.rets
            out.brks += oe.brks
            out.conts += oe.conts
            fin = oe.norm
        out.norm = fin
        if o is not None:
            for s, _v in o.rets:
                self._unstash(s, lid)
            out.rets += o.rets
            out.norm = out.norm + [self._unstash(s.fork(), lid) for s in o.brks]
        out.norm = self.merge(out.norm)
        return out

    def st_Match(self, n, states):
        # analysed as a chain of tests on constants / wildcard; other patterns: unknown
        out = Out()
        cur = []
        for s in states:
            cur += self.ev(n.subject, s)
        for c in n.cases:
            hit, miss = [], []
            for s, v in cur:
                pats = self._pat_consts(c.pattern, s)
                if pats == 'any':
                    if isinstance(c.pattern, ast.MatchAs) and c.pattern.name:
                        self.bind(s, c.pattern.name, v)
                    hit.append(s)
                    continue
                if pats is None:
                    for x in ast.walk(c.pattern):
                        if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                            self.bind(s, x.name, V(top(self.svn(x), labels_of(v))))
                    hit.append(s.fork())
                    miss.append((s, v))
                    continue
                tv = set()
                fv = set()
                for a in v:
                    rs = [self.atom_eq(a, p, s) for p in pats]
                    if any(r is True for r in rs):
                        tv.add(a)
                    elif all(r is False for r in rs):
                        fv.add(a)
                    else:
                        tv.add(a)
                        fv.add(a)
                if tv:
                    t = s.fork()
                    self.narrow(n.subject, frozenset(tv), t)
                    hit.append(t)
                if fv:
                    self.narrow(n.subject, frozenset(fv), s)
                    miss.append((s, frozenset(fv)))
            if c.guard is not None:
                h2 = []
                for s in hit:
                    a, b = self.cond(c.guard, s)
                    h2 += a
                    miss += [(x, V(top(self.svn(c), NOL))) for x in b]
                hit = h2
            if hit:
                o = self.exec_block(c.body, self.merge(hit))
                out.norm += o.norm
                out.rets += o.rets
                out.brks += o.brks
                out.conts += o.conts
            cur = miss
        out.norm += [s for s, _ in cur]
        out.norm = self.merge(out.norm)
        return out

    def _pat_consts(self, p, s):
        if isinstance(p, ast.MatchValue):
            rs = self.ev(p.value, s.fork())
            v = rs[0][1] if rs else EMPTY
            return list(v)
        if isinstance(p, ast.MatchSingleton):
            return [const(p.value)]
        if isinstance(p, ast.MatchOr):
            r = []
            for q in p.patterns:
                x = self._pat_consts(q, s)
                if x is None or x == 'any':
                    return x
                r += x
            return r
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return 'any'
            return None
        return None

    # -- function calls -----------------------------------------------------------------------------------
    def merge_rets(self, rets):
        if len(rets) <= 1:
            return rets
        d = {}
        order = []
        for s, v in rets:
            k = (self.valsig(v), self.reskey(s))
            if k in d:
                t, w = d[k]
                d[k] = (join_states(t, s), join(w, v, ('rv', self.ctx)))
            else:
                d[k] = (s, v)
                order.append(k)
        if len(d) > 10:
            d2 = {}
            for (sg, rk), (s, v) in d.items():
                if rk in d2:
                    t, w = d2[rk]
                    d2[rk] = (join_states(t, s), join(w, v, ('rv', self.ctx)))
                else:
                    d2[rk] = (s, v)
            return list(d2.values())
        return [d[k] for k in order]

    def valsig(self, v, depth=0):
        if len(v) == 1:
            (a,) = v
            if a[0] == 'C':
                if a[2] is None or isinstance(a[2], bool):
                    return repr(a[2])
                if a[1] == 'int':
                    return 'i%d' % a[2]
                if a[2] == '':
                    return 'e'
            if a[0] == 'U' and depth < 2:
                return ('U',) + tuple(self.valsig(x, depth + 1) for x in a[1])
            if a[0] == 'MT':
                return 'MT'
            if a[0] == 'UNB':
                return 'unb'
        return '*'

    def call_user(self, st, fi, pfid, args, kwargs, node, extra_kw=None):
        """inline a call; returns [(state, value)]"""
        self.stats['calls'] += 1
        self.reached.add(fi.qual)
        stub = self.stubs.get(fi.qual)
        self.emit('call', st, node, fi=fi, args=args, kwargs=kwargs)
        if stub is not None:
            r = stub(self, st, fi, args, kwargs, node)
            if r is not None:
                return r
        if len(self.stack) > 45 or sum(1 for f, _, _ in self.stack if f is fi) > 2:
            self.top_site(node, 'recursion')
            return [(st, V(top(self.svn(node), self.arg_labels(st, args, kwargs))))]
        saved_ctx = self.ctx
        newctx = self._ctx(self.ctx, (self.nid(node), fi.key))
        fid = ('f', fi.key, newctx)
        ok = self.bind_args(st, fi, fid, pfid, args, kwargs, node)
        if not ok:
            self.raise_(st, 'TypeError', 'argbind', node, fork=False)
            return []
        if fi.is_gen:
            self.ctx = newctx
            a = self.alloc(st, fi.node, Obj('gen', meta=tuple(sorted(
                [('fkey', fi.key), ('fid', fid), ('ctx', newctx)]))), 'gen')
            self.ctx = saved_ctx
            return [(st, V(a))]
        saved = self.excs
        self.excs = []
        self.stack = self.stack + [(fi, fid, node)]
        self.ctx = newctx
        self.emit('enter', st, node, fi=fi)
        out = self.exec_block(fi.body, [st])
        rets = out.rets + [(s, NONE) for s in out.norm]
        self.emit('leave', None, node, fi=fi, rets=rets)
        rets = self.merge_rets(rets)
        self.compact_excs()
        ex = self.excs
        self.stack = self.stack[:-1]
        self.ctx = saved_ctx
        self.excs = saved
        if not fi.has_inner:
            for s, _ in rets:
                s.wframes().pop(fid, None)
            for s, _ in ex:
                s.wframes().pop(fid, None)
        for s, v in rets:
            self.gc(s, (v,))
        self.excs += ex
        return rets

    def arg_labels(self, st, args, kwargs):
        r = NOL
        for v in list(args) + list(kwargs.values()):
            r |= self.deep_labels(st, v)
        return r

    def deep_labels(self, st, v, depth=0, seen=None):
        r = NOL
        if depth > 5:
            return r
        if seen is None:
            seen = set()
        for a in v:
            if a[0] == 'C':
                continue
            if a[0] == 'R':
                if a[1] in seen:
                    continue
                seen.add(a[1])
                o = st.heap.get(a[1])
                if o is None:
                    continue
                r |= frozenset(x for x in o.labels if x in self.flow_labels)
                for x in o.items:
                    if isinstance(x, frozenset):
                        r |= self.deep_labels(st, x, depth + 1, seen)
                r |= self.deep_labels(st, o.rest, depth + 1, seen)
                r |= self.deep_labels(st, o.restk, depth + 1, seen)
                if o.ent:
                    for k, (x, _m) in o.ent.items():
                        r |= labels_of_atom(k)
                        r |= self.deep_labels(st, x, depth + 1, seen)
                if o.attrs:
                    for x in o.attrs.values():
                        r |= self.deep_labels(st, x, depth + 1, seen)
            elif a[0] == 'U':
                for x in a[1]:
                    r |= self.deep_labels(st, x, depth + 1, seen)
            else:
                r |= labels_of_atom(a)
        return r

    flow_labels = frozenset(['doc', 'kb', 'env', 'setorder', 'setjoin', 'hash', 'time', 'random', 'locale', 'id', 'net', 'pdf',
                             'esc', 'linker', 'hash', 'fmt', 'h1', 'h2', 'h3', 'h4'])
    path_label = None     # hook: path atom -> label of the contents
    file_lines = None     # constant path -> constant lines
    HIST = frozenset(['h1', 'h2', 'h3', 'h4'])

    def bind_args(self, st, fi, fid, pfid, args, kwargs, node):
        a = fi.node.args
        fr = {'@parent': pfid}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        kwargs = dict(kwargs)
        star = kwargs.pop('*', None)
        dstar = kwargs.pop('**', None)
        vals = list(args)
        for i, p in enumerate(pos):
            if i < len(vals):
                fr[p] = vals[i]
            elif p in kwargs:
                fr[p] = kwargs.pop(p)
        extra = vals[len(pos):]
        for p in kwonly:
            if p in kwargs:
                fr[p] = kwargs.pop(p)
        if a.vararg:
            st.wframes()[fid] = fr
            fr[a.vararg.arg] = V(('U', tuple(extra))) if star is None else V(top(self.svn(node, 'va')))
        elif extra and star is None:
            return False
        # defaults
        dk = ('d', fi.key) if ('d', fi.key) in st.frames else None
        if dk is None:
            for k in st.frames:
                if k[0] == 'd' and k[1] == fi.key:
                    dk = k
                    break
        defs = a.defaults
        nd = len(defs)
        df = st.frames.get(dk, {}) if dk else {}
        for i, p in enumerate(pos):
            if p not in fr:
                j = i - (len(pos) - nd)
                if j >= 0:
                    fr[p] = df.get(str(j), V(top(('dflt', fi.key, j))))
                    if dstar is not None:
                        fr[p] = join(fr[p], dstar)
                    if star is not None:
                        fr[p] = join(fr[p], star)
                elif star is not None or dstar is not None:
                    fr[p] = join(star or EMPTY, dstar or EMPTY) or V(top(self.svn(node, p)))
                else:
                    return False
        kd = [d for d in a.kw_defaults]
        j = nd
        for p, d in zip(kwonly, kd):
            if d is not None:
                if p not in fr:
                    fr[p] = df.get(str(j), V(top(('dflt', fi.key, j))))
                j += 1
            elif p not in fr:
                if dstar is None:
                    return False
                fr[p] = dstar
        if a.kwarg:
            st.wframes()[fid] = fr
            ent = {const(k): (v, True) for k, v in kwargs.items()}
            saved = self.ctx
            self.ctx = fid[2]
            d = self.new_dict(st, fi.node, ent=ent, rest=dstar or EMPTY,
                              restk=V(S(('kwk',))) if dstar else EMPTY, tag='kw')
            self.ctx = saved
            fr[a.kwarg.arg] = V(d)
        elif kwargs:
            return False
        # value numbers in arguments are kept; frames of earlier calls at this context are replaced
        st.wframes()[fid] = fr
        return True

    def top_site(self, node, why):
        self.stats['topcalls'] += 1
        self.topsites['%s %s' % (why, self.where(node))] = self.topsites.get('%s %s' % (why, self.where(node)), 0) + 1

    def call(self, st, fatom, args, kwargs, node):
        k = fatom[0]
        if k == 'F':
            return self.call_user(st, self.prog.funcs[fatom[1]], fatom[2], args, kwargs, node)
        if k == 'BF':
            return self.call_user(st, self.prog.funcs[fatom[2]], fatom[3], [V(fatom[1])] + list(args), kwargs, node)
        if k == 'BM':
            return self.call_method(st, fatom[1], fatom[2], args, kwargs, node)
        if k == 'K':
            return self.instantiate(st, fatom[1], args, kwargs, node)
        if k == 'X':
            return self.call_ext(st, fatom[1], args, kwargs, node)
        if k == 'RX' or k == 'C':
            self.raise_(st, 'TypeError', 'call', node)
            return []
        if k == 'R':
            o = st.heap.get(fatom[1])
            if o is not None and o.kind == 'inst' and o.m('ck') is not None:
                return self.call_method(st, fatom, '__call__', args, kwargs, node)
            if o is not None and o.kind == 'inst' and o.m('partial'):
                f = o.attrs['func']
                pa = [o.attrs[str(i)] for i in range(o.m('partial') - 1)]
                kw = {kk[3:]: vv for kk, vv in o.attrs.items() if kk.startswith('kw:')}
                kw.update(kwargs)
                res = []
                for fa in f:
                    res += self.call(st.fork(), fa, pa + list(args), kw, node)
                return res
        # unknown callable
        self.emit('unkcall', st, node, atom=fatom, args=args, kwargs=kwargs)
        labs = self.arg_labels(st, args, kwargs) | labels_of_atom(fatom)
        self.top_site(node, 'unknown call')
        self.raise_(st, 'Exception', 'unkcall:' + self.unk_name(fatom), node)
        return [(st, V(top(self.mkvn(node, 'uc', *[x for x in (fatom,) if self.atom_grounded(x)], self.nid(node), self.ctx), labs)))]

    def unk_name(self, a):
        if a[0] == 'T' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'param':
            return a[1][1]
        return '?'

    def instantiate(self, st, ck, args, kwargs, node):
        cn, mod, qual = self.prog.classes[ck]
        meth = self.class_attr(st, ck, '__init__')
        bases = self.class_bases(ck)
        at = {}
        a = self.alloc(st, node, Obj('inst', attrs=at, meta=tuple(sorted([('ck', ck), ('cls', qual)]))), ('inst', ck))
        if meth:
            res = []
            for f in meth:
                if f[0] == 'F':
                    for s, _ in self.call_user(st.fork(), self.prog.funcs[f[1]], f[2], [V(a)] + list(args), kwargs, node):
                        res.append((s, V(a)))
            return res
        # dataclass / namedtuple style fields, exceptions: keep positional args
        fields = [x.target.id for x in cn.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        o = st.heap[a[1]]
        at = dict(o.attrs)
        for i, v in enumerate(args):
            if i < len(fields):
                at[fields[i]] = v
        for kk, v in kwargs.items():
            at[kk] = v
        cf = st.frames.get(('k', ck), {})
        for f in fields:
            if f not in at and f in cf:
                at[f] = cf[f]
        at['args'] = V(('U', tuple(args)))
        st.put(a[1], o.but(attrs=at))
        return [(st, V(a))]

    def class_bases(self, ck):
        cn, mod, qual = self.prog.classes[ck]
        out = []
        for b in cn.bases:
            try:
                t = ast.unparse(b)
            except Exception:  # noqa
                t = '?'
            out.append(t)
        return out

    def class_attr(self, st, ck, name):
        f = st.frames.get(('k', ck), {})
        if name in f:
            return f[name]
        cn, mod, qual = self.prog.classes[ck]
        for b in cn.bases:
            if isinstance(b, ast.Name):
                v = st.frames.get(('m', mod), {}).get(b.id)
                if v:
                    for a in v:
                        if a[0] == 'K':
                            r = self.class_attr(st, a[1], name)
                            if r:
                                return r
        return None

    # -- root ----------------------------------------------------------------------------------------------
    def run(self, fi, args=(), kwargs=None, setup=None, salt=0, state=None):
        """analyse a call of `fi` from outside; returns (rets, excs)"""
        st = (state or self.modstate).fork()
        self.excs = []
        self.stack = [(None, ('root',), None)]
        st.wframes()[('root',)] = {}
        self.curmod = fi.mod
        self.ctx = self._ctx(0, ('root', fi.key, salt))
        args = list(args)
        kwargs = dict(kwargs or {})
        if setup:
            args, kwargs = setup(self, st)
        node = fi.node
        rets = self.call_user(st, fi, None, args, kwargs, node)
        excs = self.excs
        return rets, excs


class _ElMap:
    """vn renaming: this iteration's identities become 'old'"""

    def __init__(self, lid):
        self.lid = lid

    def __bool__(self):
        return True

    def get(self, x):
        if x and x[0] == 'el' and x[1] == self.lid:
            return ('old',) + x[1:]
        return None
