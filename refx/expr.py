"""Expression evaluation for the abstract interpreter."""
import ast

from . import rx as rxm
from . import words
from .dom import *  # noqa
from .dom import parts_of, single
from .words import wordy

STRC = ('C', 'S')


def is_str(a):
    return a[0] == 'S' or (a[0] == 'C' and a[1] == 'str')


def is_num(a):
    return a[0] == 'N' or (a[0] == 'C' and a[1] in ('int', 'float', 'bool'))


_CMP = {
    ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
    ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
    ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b,
}
_SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
_BIN = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.FloorDiv: lambda a, b: a // b,
    ast.Mod: lambda a, b: a % b, ast.Div: lambda a, b: a / b, ast.BitXor: lambda a, b: a ^ b,
    ast.Pow: lambda a, b: a ** b if abs(b) < 64 else None, ast.LShift: lambda a, b: a << b if b < 64 else None,
    ast.RShift: lambda a, b: a >> b,
}


class Exprs:
    # -- entry points ---------------------------------------------------------
    def ev(self, node, st):
        m = getattr(self, 'ex_' + type(node).__name__, None)
        if m is None:
            return [(st, V(top(self.svn(node))))]
        r = m(node, st)
        if len(r) > 1:
            r = self.collapse(r)
        return r

    def collapse(self, res):
        """join the values of results whose states are identical"""
        d = {}
        for s, v in res:
            k = (id(s.frames), id(s.heap), s.facts, s.gh)
            o = d.get(k)
            if o is None:
                d[k] = (s, v)
            else:
                d[k] = (o[0], join(o[1], v))
        return list(d.values()) if len(d) < len(res) else res

    def evs(self, nodes, st):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in cur:
                for t, v in self.ev(n, s):
                    nxt.append((t, vals + [v]))
            if len(nxt) > self.maxstates:
                nxt = self.merge_vals(nxt)
            cur = nxt
        return cur

    def merge_vals(self, lst):
        d = {}
        order = []
        for s, vals in lst:
            k = (self.reskey(s), tuple(self.valsig(v) for v in vals))
            if k in d:
                t, w = d[k]
                d[k] = (join_states(t, s), [join(a, b) for a, b in zip(w, vals)])
            else:
                d[k] = (s, vals)
                order.append(k)
        if len(d) > self.maxstates:
            d2 = {}
            for k in order:
                s, vals = d[k]
                k = k[0]
                if k in d2:
                    t, w = d2[k]
                    d2[k] = (join_states(t, s), [join(a, b) for a, b in zip(w, vals)])
                else:
                    d2[k] = (s, vals)
            return list(d2.values())
        return [d[k] for k in order]

    def maybe(self, st, cls, kind, node, **info):
        """an exception that may or may not happen (no positive evidence)"""
        self.emit('mayraise', st, node, cls=cls, what=kind, info=info)
        if self.flow_maybe:
            self.raise_(st, cls, kind, node)

    flow_maybe = False

    # -- atoms ------------------------------------------------------------------
    def ex_Constant(self, n, st):
        return [(st, cst(n.value))]

    def ex_Name(self, n, st):
        v = self.lookup(st, n.id, n)
        if UNBOUND_A in v:
            v = v - UNBOUND
            self.raise_(st, 'UnboundLocalError', 'unbound', n)
            if not v:
                return []
        elif len(v) == 1:
            a = next(iter(v))
            if a[0] == 'T' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'undef':
                self.raise_(st, 'NameError', 'undef', n)
                return []
        return [(st, v)]

    def ex_NamedExpr(self, n, st):
        res = []
        for s, v in self.ev(n.value, st):
            for t in self.assign(n.target, v, s, n):
                res.append((t, v))
        return res

    def ex_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            res = []
            for s, vals in self.ev_star(n.elts, st):
                if isinstance(vals, tuple):
                    res.append((s, V(('U', vals))))
                else:
                    res.append((s, V(self.new_list(s, n, rest=vals[0], cnt=None))))
            return res
        return [(s, V(('U', tuple(vals)))) for s, vals in self.evs(n.elts, st)]

    def ev_star(self, elts, st):
        """[(state, tuple of Values | [joined Value])]"""
        cur = [(st, ())]
        for e in elts:
            nxt = []
            for s, vals in cur:
                if isinstance(e, ast.Starred):
                    for t, v in self.ev(e.value, s):
                        for a in v:
                            for u, sp in self.spec_of(t, a, e):
                                if not sp['rest'] and isinstance(vals, tuple):
                                    nxt.append((u, vals + tuple(sp['items'])))
                                else:
                                    j = join_all(list(vals) + list(sp['items']) + [sp['rest']])
                                    nxt.append((u, [j]))
                else:
                    for t, v in self.ev(e, s):
                        if isinstance(vals, tuple):
                            nxt.append((t, vals + (v,)))
                        else:
                            nxt.append((t, [join(vals[0], v)]))
            cur = nxt
        return cur

    def ex_List(self, n, st):
        res = []
        if any(isinstance(e, ast.Starred) for e in n.elts):
            for s, vals in self.ev_star(n.elts, st):
                if isinstance(vals, tuple):
                    res.append((s, V(self.new_list(s, n, items=vals))))
                else:
                    res.append((s, V(self.new_list(s, n, rest=vals[0], cnt=None))))
            return res
        for s, vals in self.evs(n.elts, st):
            if len(vals) > 220:
                res.append((s, V(self.new_list(s, n, rest=join_all(vals), cnt=(len(vals), ())))))
            else:
                res.append((s, V(self.new_list(s, n, items=vals))))
        return res

    def ex_Set(self, n, st):
        return [(s, V(self.set_of(s, n, vals))) for s, vals in self.evs(n.elts, st)]

    def set_of(self, s, n, vals):
        a = self.new_set(s, n, join_all(vals) if len(vals) <= 24 else frozenset().union(*vals))
        self.must_add(s, a[1], vals)
        return a

    def must_add(self, s, oid, vals, base=EMPTY):
        """(word lines) record the elements that are certainly in a set"""
        if not self.words or s.heap[oid].multi:
            return
        m = base | frozenset(x for v in vals if len(v) == 1 for x in v if x[0] == 'C' or wordy(x))
        s.put(oid, s.heap[oid].setm('must', m or None))

    def set_exact(self, o):
        """the exact contents of a set, or None"""
        if o is None or o.kind != 'set' or o.multi:
            return None
        m = o.m('must', EMPTY)
        return m if o.rest == m else None

    def set_op(self, st, n, op, o, ob):
        """exact set algebra; None if not exact"""
        x, y = self.set_exact(o), self.set_exact(ob)
        if not self.words or x is None or y is None or not all(a[0] == 'C' or wordy(a) for a in x | y):
            return None
        # two different word terms may still be equal texts; words are distinct by assumption
        r = {'|': x | y, '&': x & y, '-': x - y, '^': x ^ y}[op]
        a = self.new_set(st, n, r)
        self.must_add(st, a[1], (), r)
        return a

    def ex_Dict(self, n, st):
        res = []
        cur = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, prs in cur:
                if k is None:
                    for t, vv in self.ev(v, s):
                        nxt.append((t, prs + [(None, vv)]))
                else:
                    for t, kv in self.ev(k, s):
                        for u, vv in self.ev(v, t):
                            nxt.append((u, prs + [(kv, vv)]))
            if len(nxt) > 4 and all(x[0] is not None for x in nxt[0][1]):
                d = {}
                for s, prs in nxt:
                    kk = (self.reskey(s), tuple(x[0] for x in prs))
                    if kk in d:
                        t, w = d[kk]
                        d[kk] = (join_states(t, s), [(x[0], join(x[1], y[1])) for x, y in zip(w, prs)])
                    else:
                        d[kk] = (s, prs)
                nxt = list(d.values())
            cur = nxt
        for s, prs in cur:
            a = self.new_dict(s, n, cnt=None)
            for kv, vv in prs:
                if kv is None:
                    for x in vv:
                        self.dict_merge(s, a, x, n)
                else:
                    self.dict_set(s, a[1], kv, vv, n, quiet=True)
            res.append((s, V(a)))
        return res

    def ex_Lambda(self, n, st):
        return self.make_func(n, st)

    def ex_JoinedStr(self, n, st):
        cur = [(st, [V(const(''))])]
        for p in n.values:
            nxt = []
            for s, vals in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((s, vals + [cst(p.value)]))
                else:
                    for t, v in self.ev(p.value, s):
                        if p.format_spec is not None:
                            for u, fv in self.ev(p.format_spec, t):
                                w = self.to_str(u, v, n)
                                if is_const(fv) and getc(fv) in ('', 's'):
                                    nxt.append((u, vals + [w]))
                                else:
                                    nxt.append((u, vals + [self.str_fn(n, 'fmt', w, [fv])]))
                        else:
                            if p.conversion == 114:
                                w = self.str_fn(n, 'repr', self.to_str(t, v, n), [])
                            else:
                                w = self.to_str(t, v, n)
                            nxt.append((t, vals + [w]))
            cur = nxt
        res = []
        for s, vals in cur:
            r = vals[0]
            for v in vals[1:]:
                r = self.concat(r, v, n)
            res.append((s, r))
        return res

    def ex_Starred(self, n, st):
        return self.ev(n.value, st)

    def ex_Await(self, n, st):
        return self.ev(n.value, st)

    def ex_Yield(self, n, st):
        res = []
        fid = self.stack[-1][1]
        cb = None
        for f, c in reversed(self.yield_cb):
            if f == fid:
                cb = c
                break
        for s, v in (self.ev(n.value, st) if n.value is not None else [(st, NONE)]):
            if cb is None:
                res.append((s, NONE))
            else:
                for t in cb(s, v, n):
                    res.append((t, NONE))
        return res

    def ex_YieldFrom(self, n, st):
        res = []
        fid = self.stack[-1][1]
        cb = None
        for f, c in reversed(self.yield_cb):
            if f == fid:
                cb = c
                break
        for s, v in self.ev(n.value, st):
            for a in v:
                for t, sp in self.spec_of(s, a, n):
                    cur = [t]
                    if cb is not None:
                        for it in list(sp['items']) + ([sp['rest']] if sp['rest'] else []):
                            nx = []
                            for c in cur:
                                nx += cb(c, it, n)
                            cur = self.merge(nx)
                    res += [(c, NONE) for c in cur]
        return res

    # -- comprehensions -----------------------------------------------------------
    def _comp(self, n, st, mk, add):
        res = []
        a0 = mk(st)

        def gen(i, s_list):
            from .interp import Out
            out = Out()
            g = n.generators[i]
            for s in s_list:
                saved, self.charwise = self.charwise, self.words and len(n.generators) == 1 and isinstance(g.iter, ast.Name) and not g.ifs
                try:
                    its = list(self.iter_spec(g.iter, s))
                finally:
                    self.charwise = saved
                for t, spec in its:
                    self.loop(g.iter, g.target, spec, t, lambda sts, i=i: body(i, sts), [], out)
            out.norm = self.merge(out.norm)
            return out

        def body(i, sts):
            from .interp import Out
            cur = sts
            skipped = []
            for c in n.generators[i].ifs:
                nx = []
                for s in cur:
                    a, b = self.cond(c, s)
                    nx += a
                    skipped += b
                cur = self.merge(nx)
            out = Out()
            if i + 1 < len(n.generators):
                if cur:
                    o = gen(i + 1, cur)
                    out.norm = o.norm + skipped
                else:
                    out.norm = skipped
                return out
            done = []
            for s in cur:
                done += add(s)
            out.norm = done + skipped
            return out
        # the container is found again through a hidden variable (ids get renamed)
        fid = self.stack[-1][1]
        name = '@c%d' % self.nid(n)
        st.setvar(fid, name, V(a0))
        o = gen(0, [st])
        for s in o.norm:
            v = s.frames[fid][name]
            f = dict(s.frames[fid])
            f.pop(name, None)
            s.wframes()[fid] = f
            res.append((s, v))
        return res

    def _cref(self, n, s):
        (a,) = s.frames[self.stack[-1][1]]['@c%d' % self.nid(n)]
        return a

    def ex_ListComp(self, n, st):
        def add(s):
            r = []
            for t, v in self.ev(n.elt, s):
                self.list_append(t, self._cref(n, t), v, n, quiet=True)
                r.append(t)
            return r
        return self._comp(n, st, lambda s: self.new_list(s, n), add)

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n, st):
        def add(s):
            r = []
            for t, v in self.ev(n.elt, s):
                a = self._cref(n, t)
                o = t.heap[a[1]]
                t.put(a[1], o.but(rest=join(o.rest, v)))
                r.append(t)
            return r
        return self._comp(n, st, lambda s: self.new_set(s, n), add)

    def ex_DictComp(self, n, st):
        def add(s):
            r = []
            for t, kv in self.ev(n.key, s):
                for u, v in self.ev(n.value, t):
                    self.dict_set(u, self._cref(n, u)[1], kv, v, n, quiet=True)
                    r.append(u)
            return r
        return self._comp(n, st, lambda s: self.new_dict(s, n), add)

    # -- operators ------------------------------------------------------------------
    def ex_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            res = []
            t, f = self.split(n.operand, st)
            ts = self.merge([s for s, _ in t])
            fs = self.merge([s for s, _ in f])
            res += [(s, FALSE) for s in ts]
            res += [(s, TRUE) for s in fs]
            return res
        res = []
        for s, v in self.ev(n.operand, st):
            out = set()
            for a in v:
                if a[0] == 'C' and a[1] in ('int', 'float', 'bool') and isinstance(n.op, ast.USub):
                    out.add(const(-a[2]))
                elif a[0] == 'C' and a[1] in ('int', 'float') and isinstance(n.op, ast.UAdd):
                    out.add(a)
                elif a[0] == 'C' and a[2] is None:
                    self.raise_(s, 'TypeError', 'none', n)
                elif a[0] == 'T':
                    out.add(top(self.mkvn(n, 'neg', a), a[2]))
                else:
                    out.add(('N', self.mkvn(n, 'neg', a) if self.simple(a) else None, labels_of_atom(a)))
            if out:
                res.append((s, frozenset(out)))
        return res

    def simple(self, a):
        return a[0] in ('C', 'S', 'N', 'B', 'T', 'XI', 'MT', 'RX')

    def vnargs(self, node, tag, *atoms):
        """value number for a pure function of simple atoms (else site number)"""
        for a in atoms:
            if isinstance(a, tuple) and a and a[0] in ('R', 'U', 'BM', 'BF', 'F'):
                return self.svn(node, tag)
        return self.mkvn(node, tag, *atoms)

    def ex_BinOp(self, n, st):
        res = []
        for s, (lv, rv) in self.evs([n.left, n.right], st):
            res += self.binop(n.op, lv, rv, s, n)
        return res

    def binop(self, op, lv, rv, st, n):
        out = EMPTY
        if isinstance(op, ast.Mod) and any(is_str(a) for a in lv):
            lstr = frozenset(a for a in lv if is_str(a))
            out = self.percent(lstr, rv, st, n)
            lv = lv - lstr
            if not lv:
                return [(st, out)] if out else []
        cnt = 0
        rs = []
        for a in lv:
            for b in rv:
                cnt += 1
                if cnt > 150:
                    out = join(out, V(top(self.svn(n), labels_of(lv) | labels_of(rv))), self.svn(n))
                    break
                if (a == NONE_A or b == NONE_A) and (len(lv) > 1 or len(rv) > 1):
                    k = self.none_kind(st, lv if a == NONE_A else rv)
                    if k != 'none' and (b if a == NONE_A else a)[0] != 'T':
                        self.raise_(st, 'TypeError', k, n)
                        continue
                x = self.binop1(op, a, b, st, n)
                if x is not None:
                    out = join(out, x, self.svn(n, 'bo'))
        return [(st, out)] if out else []

    def binop1(self, op, a, b, st, n):
        if a[0] == 'C' and b[0] == 'C':
            f = _BIN.get(type(op))
            try:
                r = f(a[2], b[2]) if f else None
                if isinstance(r, (int, float, str, bytes, bool)) and (not isinstance(r, (str, bytes)) or len(r) < 5000):
                    return cst(r)
                if r is not None:
                    return V(top(self.svn(n)))
            except ZeroDivisionError:
                self.raise_(st, 'ZeroDivisionError', 'py', n)
                return None
            except TypeError:
                self.raise_(st, 'TypeError', 'none' if (a[2] is None or b[2] is None) else 'op', n)
                return None
            except Exception:  # noqa
                return V(top(self.svn(n)))
        for x in (a, b):
            if x[0] == 'C' and x[2] is None:
                other = b if x is a else a
                if other[0] != 'T':
                    self.raise_(st, 'TypeError', 'none', n)
                    return None
        if self.words and is_num(a) and is_num(b):
            va, vb = words.vec(a), words.vec(b)
            f = _BIN.get(type(op))
            if va is not None and vb is not None and f:
                try:
                    x = words.unvec([f(p, q) for p, q in zip(va, vb)], {})
                except Exception:  # noqa
                    x = None
                if x is not None:
                    return V(x)
        labs = labels_of_atom(a) | labels_of_atom(b)
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                return V(mkstr(parts_of(a) + parts_of(b)))
            if (is_str(a) and b[0] == 'T') or (a[0] == 'T' and is_str(b)):
                pa = parts_of(a) if is_str(a) else (hole(self.vnargs(n, 'str', a), a[2]),)
                pb = parts_of(b) if is_str(b) else (hole(self.vnargs(n, 'str', b), b[2]),)
                return V(mkstr(pa + pb))
            if (is_str(a) and is_num(b)) or (is_num(a) and is_str(b)):
                self.raise_(st, 'TypeError', 'op', n)
                return None
            if a[0] == 'R' and b[0] == 'R':
                oa, ob = st.heap.get(a[1]), st.heap.get(b[1])
                if oa is not None and ob is not None and oa.kind == 'list' and ob.kind == 'list':
                    if not oa.rest:
                        items, rest = oa.items + ob.items, ob.rest
                    else:
                        items, rest = oa.items, join_all([oa.rest, ob.rest] + list(ob.items))
                    return V(self.new_list(st, n, items=items, rest=rest, cnt=lin_add(oa.cnt, ob.cnt),
                                           labels=self.carry(oa.labels | ob.labels), tag=(a, b)))
            if a[0] == 'R' and (b[0] == 'T'):
                oa = st.heap.get(a[1])
                if oa is not None and oa.kind == 'list':
                    return V(self.new_list(st, n, rest=join_all([oa.rest, V(top(self.svn(n, 'e'), b[2]))] + list(oa.items)), cnt=None))
            if a[0] == 'U' and b[0] == 'U':
                return V(('U', a[1] + b[1]))
        if isinstance(op, ast.Div) and is_str(a) and is_str(b):
            return V(mkstr(parts_of(a) + ('/',) + parts_of(b)))    # a path object
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if is_str(x) and is_num(y):
                    return V(S(self.vnargs(n, 'mul', x, y), labs))
                if x[0] == 'R' and is_num(y):
                    o = st.heap.get(x[1])
                    if o is not None and o.kind == 'list':
                        return V(self.new_list(st, n, rest=join_all([o.rest] + list(o.items)), cnt=None))
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and a[0] == 'R':
            o = st.heap.get(a[1])
            if o is not None and o.kind == 'set':
                ob = st.heap.get(b[1]) if b[0] == 'R' else None
                r = self.set_op(st, n, {ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-', ast.BitXor: '^'}[type(op)], o, ob)
                if r is not None:
                    return V(r)
                if isinstance(op, (ast.BitOr, ast.BitXor)):
                    return V(self.new_set(st, n, join(o.rest, ob.rest if ob else V(top(self.svn(n, 'e'), labs)))))
                return V(self.new_set(st, n, o.rest))
            if o is not None and o.kind == 'dict' and isinstance(op, ast.BitOr):
                d = self.new_dict(st, n, ent=dict(o.ent), rest=o.rest, restk=o.restk, labels=self.carry(o.labels))
                self.dict_merge(st, d, b, n)
                return V(d)
            if o is not None and o.kind == 'list' and b[0] == 'R':
                return V(top(self.svn(n)))
        if is_num(a) and is_num(b) or a[0] == 'B' or b[0] == 'B':
            if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
                if b[0] != 'C' or not b[2]:
                    self.maybe(st, 'ZeroDivisionError', 'zerodiv', n)
            # linear simplification: (x + c1) + c2
            return V(('N', self.vnargs(n, type(op).__name__, a, b), labs))
        if a[0] == 'T' or b[0] == 'T':
            return V(top(self.vnargs(n, type(op).__name__, a, b), labs))
        return V(top(self.svn(n, type(op).__name__), labs))

    def carry(self, labels):
        return frozenset(x for x in labels if x in self.flow_labels)

    def concat(self, l, r, n):
        out = EMPTY
        c = 0
        for a in l:
            for b in r:
                c += 1
                if c > 100:
                    return squash(out | V(S(self.svn(n), labels_of(l) | labels_of(r))), self.svn(n))
                out = join(out, V(mkstr(parts_of(a) + parts_of(b))), self.svn(n, 'cc'))
        return out

    # -- strings ----------------------------------------------------------------------
    def to_str(self, st, v, n):
        """str() of a value"""
        out = EMPTY
        for a in v:
            if is_str(a):
                w = V(a)
            elif a[0] == 'C':
                w = cst(str(a[2]))
            elif self.simple(a):
                w = V(S(self.mkvn(n, 'str', a), labels_of_atom(a)))
            else:
                w = V(S(self.svn(n, 'str'), self.deep_labels(st, V(a))))
            out = join(out, w, self.svn(n, 'ts'))
        return out

    def str_fn(self, n, tag, v, args):
        """opaque pure string -> string function"""
        out = EMPTY
        labs = NOL
        for w in args:
            labs |= labels_of(w)
        ar = tuple(next(iter(w)) if len(w) == 1 else ('T', self.svn(n, 'a'), NOL) for w in args)
        for a in v:
            out = join(out, V(S(self.vnargs(n, tag, a, *ar), labels_of_atom(a) | labs)), self.svn(n, tag))
        return out

    def percent(self, lv, rv, st, n):
        out = EMPTY
        for a in lv:
            if a[0] != 'C':
                self.emit('fmtstr', st, n, atom=a, args=rv)
                out = join(out, V(S(self.svn(n, 'pct'), labels_of_atom(a) | self.deep_labels(st, rv))), self.svn(n))
                continue
            pieces = _parse_percent(a[2])
            if pieces is None:
                out = join(out, V(S(self.svn(n, 'pct'), self.deep_labels(st, rv))), self.svn(n))
                continue
            nargs = sum(1 for p in pieces if not isinstance(p, str) and p[0] is None)
            named = any(not isinstance(p, str) and p[0] is not None for p in pieces)
            for b in rv:
                vals = None
                get = None
                if named:
                    o = st.heap.get(b[1]) if b[0] == 'R' else None
                    if o is not None and o.kind == 'dict':
                        def get(k, o=o):
                            e = o.ent.get(const(k))
                            if e is None:
                                if not o.restk:
                                    self.raise_(st, 'KeyError', 'key!', n)
                                return join(o.rest, EMPTY) or None
                            return e[0]
                elif b[0] == 'U':
                    vals = b[1]
                    if len(vals) != nargs:
                        self.raise_(st, 'TypeError', 'pctargs', n)
                        continue
                elif nargs == 1:
                    vals = (V(b),)
                elif b[0] == 'T':
                    vals = None
                elif nargs != 1 and b[0] != 'R':
                    self.raise_(st, 'TypeError', 'pctargs', n)
                    continue
                cur = cst('')
                i = 0
                for p in pieces:
                    if isinstance(p, str):
                        cur = self.concat(cur, cst(p), n)
                        continue
                    key, conv, spec = p
                    if key is not None:
                        x = get(key) if get else None
                    else:
                        x = vals[i] if vals is not None else None
                        i += 1
                    if x is None:
                        w = V(S(self.svn(n, 'pa', i), self.deep_labels(st, V(b))))
                    elif conv == 's' and not spec:
                        w = self.to_str(st, x, n)
                    elif conv in 'di' and not spec:
                        w = EMPTY
                        for y in x:
                            if is_str(y) or (y[0] == 'C' and y[2] is None):
                                self.raise_(st, 'TypeError', 'pctd', n)
                            else:
                                w = join(w, self.to_str(st, V(y), n))
                        if not w:
                            cur = EMPTY
                            break
                    else:
                        w = self.str_fn(n, 'pct' + spec + conv, self.to_str(st, x, n), [])
                    cur = self.concat(cur, w, n)
                out = join(out, cur, self.svn(n, 'pct'))
        return out

    def str_format(self, st, a, args, kwargs, n):
        if a[0] != 'C':
            self.emit('fmtstr', st, n, atom=a, args=EMPTY)
            return V(S(self.svn(n, 'fmt'), labels_of_atom(a) | self.arg_labels(st, args, kwargs)))
        import string
        try:
            pieces = list(string.Formatter().parse(a[2]))
        except ValueError:
            self.raise_(st, 'ValueError', 'fmt', n)
            return EMPTY
        cur = cst('')
        auto = 0
        for lit, field, spec, conv in pieces:
            if lit:
                cur = self.concat(cur, cst(lit), n)
            if field is None:
                continue
            x = None
            if field == '':
                if auto < len(args):
                    x = args[auto]
                elif '*' not in kwargs:
                    self.raise_(st, 'IndexError', 'fmtargs', n)
                    return EMPTY
                auto += 1
            elif field.isdigit():
                if int(field) < len(args):
                    x = args[int(field)]
                elif '*' not in kwargs:
                    self.raise_(st, 'IndexError', 'fmtargs', n)
                    return EMPTY
            elif field in kwargs:
                x = kwargs[field]
            elif field.isidentifier() and '**' not in kwargs:
                self.raise_(st, 'KeyError', 'fmtargs', n)
                return EMPTY
            if x is None:
                w = V(S(self.svn(n, 'fa', field), self.arg_labels(st, args, kwargs)))
            elif (spec and spec != 's') or conv == 'r':
                w = self.str_fn(n, 'fmt' + (spec or '') + (conv or ''), self.to_str(st, x, n), [])
            else:
                w = self.to_str(st, x, n)
            cur = self.concat(cur, w, n)
        return cur

    # -- truth and conditions --------------------------------------------------------------
    def truth1(self, a, st):
        """True / False / None"""
        k = a[0]
        if k == 'C':
            return bool(a[2])
        if k == 'S':
            if any(isinstance(p, str) for p in a[1]):
                return True
            for p in a[1]:
                if self.hole_min(p) > 0:
                    return True
        elif k == 'U':
            return len(a[1]) > 0
        elif k == 'R':
            o = st.heap.get(a[1])
            if o is None:
                return None
            if o.kind == 'list':
                if o.items or (o.cnt is not None and not o.cnt[1] and o.cnt[0] > 0):
                    return True
                if not o.rest or (o.cnt is not None and not o.cnt[1] and o.cnt[0] == 0):
                    return False
                return True if o.m('ne') else None
            if o.kind == 'dict':
                if any(m for _v, m in o.ent.values()):
                    return True
                if not o.ent and not o.restk:
                    return False
                return True if o.m('ne') else None
            if o.kind == 'set':
                if not o.rest:
                    return False
                return True if o.m('ne') or o.m('must') else None
            if o.kind == 'any':
                return None
            return True
        elif k in ('F', 'BF', 'BM', 'K', 'M', 'X', 'RX', 'MT'):
            return True
        elif k == 'XI' and a[1] in ('Logger', 'exc'):
            return True
        if ('t', a) in st.facts:
            return True
        if ('f', a) in st.facts:
            return False
        return None

    def hole_min(self, p):
        """minimal length of a hole's text"""
        if isinstance(p[1], tuple) and p[1] and p[1][0] == 'word':
            return 1
        s = self.vstruct(p[1])
        if s and s[0] == 'grp':
            R = rxm.REG.get(s[1][1])
            if R is not None and R.known:
                return R.group_min(s[2][2])
        if s and s[0] == 'str' and s[1][0] in ('N',):
            return 1
        return 0

    def truth(self, v, st):
        t, f = set(), set()
        for a in v:
            r = self.truth1(a, st)
            if r is True:
                t.add(a)
            elif r is False:
                f.add(a)
            elif a[0] == 'B':
                t.add(TRUE_A)
                f.add(FALSE_A)
            elif a[0] == 'S':
                t.add(a)
                f.add(const('') if not a[1] or True else a)
            elif a[0] == 'N':
                t.add(a)
                f.add(const(0))
            else:
                t.add(a)
                f.add(a)
        return frozenset(t), frozenset(f)

    def cond(self, node, st):
        t, f = self.split(node, st)
        return self.merge([s for s, _ in t]), self.merge([s for s, _ in f])

    def split(self, node, st):
        """([(state, Value)] true, [(state, Value)] false)"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.split(node.operand, st)
            return [(s, TRUE) for s, _ in f], [(s, FALSE) for s, _ in t]
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            T, F = [], []
            cur = [(st, None)]
            for i, x in enumerate(node.values):
                nxt = []
                for s, _v in cur:
                    t, f = self.split(x, s)
                    if isand:
                        F += f
                        nxt += t
                    else:
                        T += t
                        nxt += f
                cur = self._mergepairs(nxt)
                if not cur:
                    break
            if isand:
                T += cur
            else:
                F += cur
            return T, F
        if isinstance(node, ast.Compare):
            return self.split_compare(node, st)
        if isinstance(node, ast.NamedExpr):
            T, F = [], []
            for s, v in self.ev(node.value, st):
                for t in self.assign(node.target, v, s, node):
                    a, b = self.split_val(node.target, t, v)
                    T += a
                    F += b
            return T, F
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            if node.func.id == 'isinstance' and len(node.args) == 2:
                return self.split_isinstance(node, st)
            if node.func.id == 'bool' and len(node.args) == 1 and not node.keywords:
                t, f = self.split(node.args[0], st)
                return [(s, TRUE) for s, _ in t], [(s, FALSE) for s, _ in f]
        T, F = [], []
        for s, v in self.ev(node, st):
            a, b = self.split_val(node, s, v)
            T += a
            F += b
        return T, F

    def _mergepairs(self, prs):
        if len(prs) <= self.maxstates:
            return prs
        return [(s, BOOL) for s in self.merge([s for s, _ in prs])]

    NONDET = frozenset(['random', 'time', 'env', 'locale', 'id', 'hash'])

    def split_val(self, node, s, v):
        if labels_of(v) & self.NONDET:
            self.emit('test', s, node, labels=labels_of(v))
        vt, vf = self.truth(v, s)
        T, F = [], []
        both = bool(vt) and bool(vf)
        if vt:
            t = s.fork() if both else s
            self.assume(t, v, True, both)
            if both:
                self.narrow(node, vt, t)
            T.append((t, vt))
        if vf:
            u = s
            self.assume(u, v, False, both)
            if both:
                self.narrow(node, vf, u)
            F.append((u, vf))
        return T, F

    def assume(self, st, v, val, both):
        """record what a truth test tells about the (single) non-None atom"""
        if not both:
            return
        atoms = [a for a in v if not (a[0] == 'C' and not a[2])]
        if len(atoms) != 1:
            return
        a = atoms[0]
        if a[0] == 'R':
            o = st.heap.get(a[1])
            if o is None or o.multi or len(v) > 1 and not val:
                return
            if o.kind in ('list', 'dict', 'set'):
                if val:
                    st.put(a[1], o.setm('ne', True))
                elif 'persist' not in o.labels:
                    if o.kind == 'dict':
                        st.put(a[1], o.but(ent={}, rest=EMPTY, restk=EMPTY))
                    else:
                        st.put(a[1], o.but(items=(), rest=EMPTY, cnt=(0, ())))
            return
        if a[0] == 'S' and len(a[1]) == 1 and not isinstance(a[1][0], str):
            sx = self.vstruct(a[1][0][1])
            if sx and sx[0] == 'grp':
                if val:
                    st.facts = st.facts | {('grp', sx[1], sx[2], 1)}
                elif self.hole_min(a[1][0]) > 0:
                    st.facts = st.facts | {('grp', sx[1], sx[2], 0)}
        if a[0] in ('B', 'N', 'T', 'S', 'XI') and (a[1] if a[0] != 'XI' else a[2]) is not None and self.atom_grounded(a):
            if val or len(atoms) == len(v):
                st.facts = st.facts | {('t' if val else 'f', a)}
        elif a[0] == 'MT' and self.atom_grounded(a):
            st.facts = st.facts | {('t' if val else 'f', a)}

    def narrow(self, node, v, st):
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            fi, fid, _ = self.stack[-1]
            f = st.frames.get(fid, {})
            if node.id in f and (fi is None or node.id in fi.locals):
                if f[node.id] != v:
                    st.setvar(fid, node.id, v)
            return
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and isinstance(node.slice, ast.Constant):
            bv = self.lookup(st, node.value.id)
            a = single(bv) if bv else None
            if a and a[0] == 'R':
                o = st.heap.get(a[1])
                k = const(node.slice.value)
                if o is not None and o.kind == 'dict' and not o.multi and k in o.ent:
                    ent = dict(o.ent)
                    ent[k] = (v, ent[k][1])
                    st.put(a[1], o.but(ent=ent))
                elif o is not None and o.kind == 'list' and not o.multi and k[1] == 'int' and 0 <= k[2] < len(o.items):
                    it = list(o.items)
                    it[k[2]] = v
                    st.put(a[1], o.but(items=tuple(it)))
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            bv = self.lookup(st, node.value.id)
            a = single(bv) if bv else None
            if a and a[0] == 'R':
                o = st.heap.get(a[1])
                if o is not None and o.kind == 'inst' and not o.multi and node.attr in o.attrs:
                    at = dict(o.attrs)
                    at[node.attr] = v
                    st.put(a[1], o.but(attrs=at))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'get' \
                and node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.func.value, ast.Name):
            bv = self.lookup(st, node.func.value.id)
            a = single(bv) if bv else None
            if a and a[0] == 'R':
                o = st.heap.get(a[1])
                k = const(node.args[0].value)
                if o is not None and o.kind == 'dict' and not o.multi and 'persist' not in o.labels and \
                        k in o.ent and NONE_A not in v and v and \
                        all(self.truth1(x, st) is not False for x in v):
                    ent = dict(o.ent)
                    ent[k] = (v, True)
                    st.put(a[1], o.but(ent=ent))

    def split_isinstance(self, node, st):
        T, F = [], []
        for s, (v, tv) in self.evs(node.args, st):
            names = []
            for a in tv:
                if a[0] == 'U':
                    for x in a[1]:
                        names += list(x)
                else:
                    names.append(a)
            t, f = set(), set()
            for a in v:
                r = self.instance_of(a, names, s)
                if r is True:
                    t.add(a)
                elif r is False:
                    f.add(a)
                else:
                    t |= set(self.cast(a, names))
                    f.add(a)
            both = t and f
            if t:
                x = s.fork() if both else s
                if both or frozenset(t) != v:
                    self.narrow(node.args[0], frozenset(t), x)
                T.append((x, TRUE))
            if f:
                if both or frozenset(f) != v:
                    self.narrow(node.args[0], frozenset(f), s)
                F.append((s, FALSE))
        return T, F

    def cast(self, a, names):
        if a[0] == 'T' and len(names) == 1 and names[0][0] == 'X':
            n = names[0][1]
            if n == 'str':
                return [('S', (('H', self.mkvn(None, 'as', a), a[2]),))]
        return [a]

    def instance_of(self, a, names, st):
        res = False
        for c in names:
            nm = c[1] if c[0] == 'X' else None
            r = None
            if a[0] == 'T' or a[0] == 'XI':
                if a[0] == 'XI' and nm and a[1] == nm:
                    r = True
                elif a[0] == 'XI' and nm in ('str', 'list', 'dict', 'int', 'tuple'):
                    r = False
                else:
                    r = None
            elif nm is not None:
                t = self.pytype(a, st)
                if t is None:
                    r = None
                elif nm == t or (nm == 'int' and t == 'bool') or nm == 'object':
                    r = True
                elif nm in ('str', 'int', 'float', 'list', 'dict', 'set', 'tuple', 'bytes', 'bool'):
                    r = False
                elif nm.split('.')[-1] in ('Iterable', 'Sequence', 'Mapping', 'Collection'):
                    last = nm.split('.')[-1]
                    if t in ('list', 'tuple', 'str'):
                        r = last != 'Mapping'
                    elif t == 'dict':
                        r = last != 'Sequence'
                    else:
                        r = None
                else:
                    r = None
            elif c[0] == 'K':
                if a[0] == 'R':
                    o = st.heap.get(a[1])
                    if o is not None and o.kind == 'inst':
                        r = True if o.m('ck') == c[1] else None
                    else:
                        r = False
                else:
                    r = False
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def pytype(self, a, st):
        k = a[0]
        if k == 'C':
            return a[1]
        if k == 'S':
            return 'str'
        if k == 'U':
            return 'tuple'
        if k == 'B':
            return 'bool'
        if k == 'N':
            return 'int'
        if k == 'R':
            o = st.heap.get(a[1])
            if o is not None and o.kind in ('list', 'dict', 'set'):
                return o.kind
            if o is not None and o.kind == 'gen':
                return 'generator'
            if o is not None and o.kind == 'inst':
                return 'instance'
            if o is not None and o.kind == 'res':
                return 'resource'
        if k in ('MT',):
            return 're.Match'
        if k in ('RX',):
            return 're.Pattern'
        if k in ('F', 'BF', 'BM'):
            return 'function'
        return None

    # -- comparisons ---------------------------------------------------------------------------
    def w_cmp(self, f, a, b):
        va, vb = words.vec(a), words.vec(b)
        if va is None or vb is None:
            return None
        try:
            rs = {bool(f(x, y)) for x, y in zip(va, vb)}
        except Exception:  # noqa
            return None
        return rs.pop() if len(rs) == 1 else None

    def deep_eq(self, a, b, st, depth=0):
        """equality of two different dicts or lists of known shape"""
        x, y = st.heap.get(a[1]), st.heap.get(b[1])
        if x is None or y is None or x.multi or y.multi or depth > 3 or x.kind != y.kind:
            return None
        if x.kind == 'list' and not x.rest and not y.rest:
            if len(x.items) != len(y.items):
                return False
            pairs = list(zip(x.items, y.items))
        elif x.kind == 'dict' and not any(getattr(o, 'restk', None) or any(not m or k[0] != 'C' for k, (_v, m) in o.ent.items()) for o in (x, y)):
            if set(x.ent) != set(y.ent):
                return False
            pairs = [(v, y.ent[k][0]) for k, (v, _m) in x.ent.items()]
        else:
            return None
        res = True
        for v, w in pairs:
            p, q = single(v), single(w)
            if p is None or q is None:
                r = None
            elif p[0] == q[0] == 'R' and p != q:
                r = self.deep_eq(p, q, st, depth + 1)
            else:
                r = self.atom_eq(p, q, st)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def atom_eq(self, a, b, st=None):
        if self.words:
            if st is not None and a[0] == b[0] == 'R' and a != b:
                r = self.deep_eq(a, b, st)
                if r is not None:
                    return r
            r = self.w_cmp(lambda x, y: x == y, a, b)
            if r is not None:
                return r
        if a[0] == 'C' and b[0] == 'C':
            try:
                return bool(a[2] == b[2])
            except Exception:  # noqa
                return None
        if a[0] == 'T' or b[0] == 'T':
            if a == b and self.atom_grounded(a):
                return True
            return None
        if a[0] == 'XI' or b[0] == 'XI':
            return None
        if a == b:
            if a[0] == 'R':
                o = st.heap.get(a[1]) if st else None
                return True if (o is not None and not o.multi) else None
            if a[0] in ('F', 'K', 'M', 'X', 'RX'):
                return True
            if a[0] == 'U':
                return None
            return True if self.atom_grounded(a) else None
        sa, sb = is_str(a), is_str(b)
        if sa != sb:
            return False
        if sa and sb:
            pa, pb = parts_of(a), parts_of(b)
            # prefix / suffix refutation
            for x, y in ((pa, pb), (pb, pa)):
                if not x:
                    # empty string against parts
                    if any(isinstance(p, str) for p in y) or any(self.hole_min(p) > 0 for p in y):
                        return False
            if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
                m = min(len(pa[0]), len(pb[0]))
                if pa[0][:m] != pb[0][:m]:
                    return False
            if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
                m = min(len(pa[-1]), len(pb[-1]))
                if m and pa[-1][-m:] != pb[-1][-m:]:
                    return False
            la = sum(len(p) for p in pa if isinstance(p, str))
            lb = sum(len(p) for p in pb if isinstance(p, str))
            if b[0] == 'C' and la > lb or a[0] == 'C' and lb > la:
                return False
            if st is not None:
                if ('ne', a, b) in st.facts or ('ne', b, a) in st.facts:
                    return False
            return None
        na, nb = is_num(a) or a[0] == 'B', is_num(b) or b[0] == 'B'
        if na != nb:
            return False
        if na and nb:
            if st is not None:
                if ('ne', a, b) in st.facts or ('ne', b, a) in st.facts:
                    return False
            if a[0] == 'N' and b[0] == 'C' and isinstance(b[2], (int, float)) and b[2] < self.num_min(a):
                return False
            if b[0] == 'N' and a[0] == 'C' and isinstance(a[2], (int, float)) and a[2] < self.num_min(b):
                return False
            return None
        if a[0] == 'U' and b[0] == 'U':
            if len(a[1]) != len(b[1]):
                return False
            for x, y in zip(a[1], b[1]):
                rs = {self.atom_eq(p, q, st) for p in x for q in y}
                if rs == {False}:
                    return False
            return None
        if a[0] == 'C' and a[2] is None or b[0] == 'C' and b[2] is None:
            return False
        ka = 'R' if a[0] == 'R' else a[0]
        kb = 'R' if b[0] == 'R' else b[0]
        if ka != kb:
            return False
        if ka == 'R' and st is not None:
            return self.obj_eq(a, b, st, 0)
        return None

    def obj_eq(self, a, b, st, d):
        """structural equality of two containers (None: unknown)"""
        o, p = st.heap.get(a[1]), st.heap.get(b[1])
        if o is None or p is None or d > 3 or o.multi or p.multi:
            return None
        if o.kind != p.kind:
            return False if {o.kind, p.kind} <= {'list', 'dict', 'set'} else None
        if o.kind == 'dict' and not o.restk and not p.restk:
            if any(k[0] != 'C' for k in list(o.ent) + list(p.ent)):
                # keys with unknown parts: unequal if some key can be equal to no key of the other
                for x, y in ((o, p), (p, o)):
                    for k, (_v, m) in x.ent.items():
                        if m and all(self.atom_eq(k, k2, st) is False for k2 in y.ent):
                            return False
                return None
            for x, y in ((o, p), (p, o)):
                if any(m and k not in y.ent for k, (_v, m) in x.ent.items()):
                    return False
            pairs = [(v, p.ent[k][0]) for k, (v, m) in o.ent.items() if k in p.ent and m and p.ent[k][1]]
            exact = all(m for _v, m in list(o.ent.values()) + list(p.ent.values()))
        elif o.kind == 'list' and not o.rest and not p.rest:
            if len(o.items) != len(p.items):
                return False
            pairs = list(zip(o.items, p.items))
            exact = True
        else:
            return None
        res = True
        for x, y in pairs:
            rs = {self.atom_eq(m, n, st) for m in x for n in y}
            if rs == {False}:
                return False
            if rs != {True}:
                res = None
        return res if exact else None

    def num_min(self, a):
        """a lower bound of a number, or -inf"""
        s = self.vstruct(a[1]) if a[1] is not None else None
        if s and s[0] in ('len', 'start', 'end', 'cnt', 'index'):
            return 0
        if a[1] is not None and isinstance(a[1], tuple) and a[1] and a[1][-1] == 'idx':
            return 0
        if s and s[0] in ('find',):
            return -1
        if s and s[0] == 'Add':
            def mm(x):
                return x[2] if x[0] == 'C' else (self.num_min(x) if x[0] == 'N' else float('-inf'))
            return mm(s[1]) + mm(s[2])
        return float('-inf')

    def cmp1(self, op, a, b, st, n):
        """True/False/None for one pair of atoms"""
        if (labels_of_atom(a) | labels_of_atom(b)) & self.NONDET:
            self.emit('test', st, n, labels=labels_of_atom(a) | labels_of_atom(b))
        if isinstance(op, (ast.Eq,)):
            return self.atom_eq(a, b, st)
        if isinstance(op, ast.NotEq):
            r = self.atom_eq(a, b, st)
            return None if r is None else not r
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = None
            if a[0] == 'C' and b[0] == 'C':
                if a[2] is None or b[2] is None or isinstance(a[2], bool) or isinstance(b[2], bool):
                    r = a == b
            elif (a[0] == 'C' and a[2] is None) or (b[0] == 'C' and b[2] is None):
                o = b if (a[0] == 'C' and a[2] is None) else a
                r = None if o[0] == 'T' else False
                if o[0] == 'T' and ('t', o) in st.facts:
                    r = False
                if o[0] == 'XI':
                    r = False
            elif a[0] == 'R' and b[0] == 'R':
                if a[1] == b[1]:
                    ob = st.heap.get(a[1])
                    r = True if ob is not None and not ob.multi else None
                else:
                    r = False
            elif a == b and a[0] in ('F', 'K', 'X', 'M'):
                r = True
            if r is None:
                return None
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, n)
            if r is None:
                return None
            return r if isinstance(op, ast.In) else not r
        # ordering
        if self.words:
            r = self.w_cmp(_CMP[type(op)], a, b) if type(op) in _CMP else None
            if r is not None:
                return r
        if a[0] == 'C' and b[0] == 'C':
            try:
                return bool(_CMP[type(op)](a[2], b[2]))
            except TypeError:
                self.raise_(st, 'TypeError', 'none' if (a[2] is None or b[2] is None) else 'cmp', n)
                return 'exc'
            except Exception:  # noqa
                return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'C' and x[2] is None and y[0] != 'T':
                self.raise_(st, 'TypeError', 'none', n)
                return 'exc'
            if is_str(x) and is_num(y):
                self.raise_(st, 'TypeError', 'cmp', n)
                return 'exc'
        if is_num(a) and is_num(b):
            if a == b and self.atom_grounded(a):
                return isinstance(op, (ast.LtE, ast.GtE))
            if a[0] == 'N' and b[0] == 'C':
                m = self.num_min(a)
                if isinstance(op, ast.GtE) and m >= b[2]:
                    return True
                if isinstance(op, ast.Gt) and m > b[2]:
                    return True
                if isinstance(op, ast.Lt) and m >= b[2]:
                    return False
                if isinstance(op, ast.LtE) and m > b[2]:
                    return False
            if b[0] == 'N' and a[0] == 'C':
                return self.cmp1(_SWAP[type(op)](), b, a, st, n)
            f = self.relfact(op, a, b, st)
            if f is not None:
                return f
        return None

    def relfact(self, op, a, b, st):
        o = type(op).__name__
        if ('rel', o, a, b, True) in st.facts:
            return True
        if ('rel', o, a, b, False) in st.facts:
            return False
        return None

    def contains(self, a, b, st, n):
        if self.words and is_str(a) and is_str(b):
            r = self.w_cmp(lambda x, y: x in y, a, b)
            if r is not None:
                return r
        if b[0] == 'C':
            if b[1] == 'str':
                if a[0] == 'C':
                    return (a[2] in b[2]) if a[1] == 'str' else None
                if not b[2]:
                    return None
            elif b[2] is None:
                self.raise_(st, 'TypeError', 'none', n)
                return 'exc'
            return None
        if b[0] == 'S':
            if a[0] == 'C' and a[1] == 'str':
                if any(isinstance(p, str) and a[2] in p for p in b[1]):
                    return True
            B = ('B', self.vnargs(n, 'in', a, b), NOL)
            return self.truth1(B, st)
        if b[0] == 'U':
            res = False
            for x in b[1]:
                rs = {self.atom_eq(a, y, st) for y in x}
                if rs == {True}:
                    return True
                if rs != {False}:
                    res = None
            return res
        if b[0] == 'R':
            o = st.heap.get(b[1])
            if o is None:
                return None
            if o.kind == 'dict':
                e = o.ent.get(a)
                if e is not None:
                    if a[0] == 'C' or self.atom_grounded(a):
                        return True if e[1] else None
                    return None
                if ('nk', b[1], a) in st.facts:
                    return False
                res = False
                for k in o.ent:
                    if self.atom_eq(a, k, st) is not False:
                        res = None
                for k in o.restk:
                    if self.atom_eq(a, k, st) is not False:
                        res = None
                return res
            vals = list(o.items) if o.kind == 'list' else []
            if o.kind == 'set' and a in o.m('must', ()):
                return True
            res = False
            for x in vals:
                rs = {self.atom_eq(a, y, st) for y in x}
                if rs == {True}:
                    return True
                if rs != {False}:
                    res = None
            for y in o.rest:
                if self.atom_eq(a, y, st) is not False:
                    res = None
            if o.kind in ('any', 'inst', 'res', 'gen'):
                return None
            return res
        return None

    def split_compare(self, node, st):
        if len(node.ops) > 1:
            # chain: a < b < c  ==  a < b and b < c  (operands evaluated once)
            T, F = [], []
            vals = self.evs([node.left] + list(node.comparators), st)
            for s, vs in vals:
                r = True
                for i, op in enumerate(node.ops):
                    rs = {self.cmp1(op, a, b, s, node) for a in vs[i] for b in vs[i + 1]}
                    if rs == {False}:
                        r = False
                        break
                    if rs != {True}:
                        r = None
                if r is not False:
                    T.append((s.fork(), TRUE))
                if r is not True:
                    F.append((s, FALSE))
            return T, F
        op = node.ops[0]
        L, Rn = node.left, node.comparators[0]
        # len(x) compared with a constant: an emptiness test of x
        em = self.emptiness(node)
        if em is not None:
            arg, positive = em
            T, F = [], []
            for s, v in self.ev(arg, st):
                if any(a[0] == 'C' and a[2] is None for a in v):
                    self.raise_(s, 'TypeError', 'none', node)
                    v = v - NONE
                    if not v:
                        continue
                if any(a[0] == 'R' and s.heap.get(a[1]) is not None and s.heap[a[1]].cnt is not None for a in v) or True:
                    t, f = self.split_val(arg, s, v)
                    if positive:
                        T += [(x, TRUE) for x, _ in t]
                        F += [(x, FALSE) for x, _ in f]
                    else:
                        T += [(x, TRUE) for x, _ in f]
                        F += [(x, FALSE) for x, _ in t]
            return T, F
        T, F = [], []
        for s, (lv, rv) in self.evs([L, Rn], st):
            lt, lf, rt, rf = set(), set(), set(), set()
            unk = False
            n_ok = 0
            if len(lv) * len(rv) > 400:
                lt = lf = set(lv)
                rt = rf = set(rv)
                unk = True
                n_ok = 2
            else:
                for a in lv:
                    for b in rv:
                        r = self.cmp1(op, a, b, s, node)
                        if r == 'exc':
                            continue
                        n_ok += 1
                        if r is not False:
                            lt.add(a)
                            rt.add(b)
                        if r is not True:
                            lf.add(a)
                            rf.add(b)
                        if r is None:
                            unk = True
            if n_ok == 0:
                continue
            both = bool(lt) and bool(lf)
            if lt:
                t = s.fork() if both else s
                if both or len(lt) < len(lv):
                    self.narrow_cmp(op, True, L, Rn, frozenset(lt), frozenset(rt), lv, rv, t, node)
                T.append((t, TRUE))
            if lf:
                if both or len(lf) < len(lv):
                    self.narrow_cmp(op, False, L, Rn, frozenset(lf), frozenset(rf), lv, rv, s, node)
                F.append((s, FALSE))
        return T, F

    def emptiness(self, node):
        """(x, True) if the test says `x is non-empty`, (x, False) if it says empty"""
        op = node.ops[0]
        L, R = node.left, node.comparators[0]
        if isinstance(R, ast.Call):
            L, R = R, L
            if type(op) not in _SWAP:
                return None
            op = _SWAP[type(op)]()
        if not (isinstance(L, ast.Call) and isinstance(L.func, ast.Name) and L.func.id == 'len'
                and len(L.args) == 1 and isinstance(R, ast.Constant) and type(R.value) is int):
            return None
        c = R.value
        t = type(op)
        if (t is ast.Gt and c == 0) or (t is ast.GtE and c == 1) or (t is ast.NotEq and c == 0):
            return L.args[0], True
        if (t is ast.Eq and c == 0) or (t is ast.Lt and c == 1) or (t is ast.LtE and c == 0):
            return L.args[0], False
        return None

    def narrow_cmp(self, op, val, L, Rn, ls, rs, lv, rv, st, node):
        eq = (isinstance(op, (ast.Eq, ast.Is)) and val) or (isinstance(op, (ast.NotEq, ast.IsNot)) and not val)
        ne = (isinstance(op, (ast.Eq, ast.Is)) and not val) or (isinstance(op, (ast.NotEq, ast.IsNot)) and val)
        a, b = single(ls), single(rs)
        if eq:
            if b is not None and b[0] == 'C':
                # the left side equals this constant
                if all(x[0] in ('S', 'C', 'N', 'T', 'B') for x in ls):
                    # keep the symbolic value when only a fact is gained on numbers
                    self.narrow(L, rs if not any(x[0] == 'B' for x in ls) else rs, st)
                else:
                    self.narrow(L, ls, st)
            elif a is not None and a[0] == 'C':
                if all(x[0] in ('S', 'C', 'N', 'T', 'B') for x in rs):
                    self.narrow(Rn, ls, st)
                else:
                    self.narrow(Rn, rs, st)
            else:
                self.narrow(L, ls, st)
                self.narrow(Rn, rs, st)
            # group facts
            self.grp_fact(lv, ls, st)
            return
        if ne:
            self.narrow(L, ls, st)
            if single(ls) is not None:
                self.narrow(Rn, rs, st)
            if a is not None and b is not None and a[0] in ('S', 'N') and b[0] in ('C', 'S', 'N') and \
                    self.atom_grounded(a) and self.atom_grounded(b):
                st.facts = st.facts | {('ne', a, b)}
            self.grp_fact(lv, ls, st)
            return
        if isinstance(op, (ast.In, ast.NotIn)):
            isin = isinstance(op, ast.In) == val
            self.narrow(L, ls, st)
            a = single(ls)
            b = single(rs)
            if a is None or b is None:
                return
            if b[0] == 'R':
                o = st.heap.get(b[1])
                if o is not None and o.kind == 'dict' and not o.multi:
                    if isin:
                        if a in o.ent:
                            ent = dict(o.ent)
                            ent[a] = (ent[a][0], True)
                            st.put(b[1], o.but(ent=ent))
                        elif self.atom_grounded(a) or a[0] == 'C':
                            v = o.rest
                            for k, (x, _m) in o.ent.items():
                                if self.atom_eq(a, k, st) is not False:
                                    v = join(v, x)
                            ent = dict(o.ent)
                            ent[a] = (v, True)
                            st.put(b[1], o.but(ent=ent))
                    else:
                        if a in o.ent and (a[0] == 'C' or self.atom_grounded(a)):
                            ent = dict(o.ent)
                            ent.pop(a)
                            st.put(b[1], o.but(ent=ent))
                        if self.atom_grounded(a) or a[0] == 'C':
                            st.facts = st.facts | {('nk', b[1], a)}
                elif o is not None and isin and a[0] == 'S' and o.kind in ('list', 'set'):
                    ev_ = join_all([o.rest] + list(o.items))
                    if ev_ and all(x[0] == 'C' for x in ev_):
                        self.narrow(L, ev_, st)
            elif b[0] == 'U' and isin and a[0] == 'S':
                ev_ = join_all(list(b[1]))
                if ev_ and all(x[0] == 'C' for x in ev_):
                    self.narrow(L, ev_, st)
            elif b[0] == 'S':
                B = ('B', self.vnargs(node, 'in', a, b), NOL)
                if self.atom_grounded(B):
                    st.facts = st.facts | {('t' if isin else 'f', B)}
            return
        # ordering
        self.narrow(L, ls, st)
        self.narrow(Rn, rs, st)
        if a is not None and b is not None and is_num(a) and is_num(b) and self.atom_grounded(a) and self.atom_grounded(b):
            st.facts = st.facts | {('rel', type(op).__name__, a, b, val)}

    def grp_fact(self, lv, ls, st):
        """`m.group(g) is None` and friends"""
        if len(lv) == 2 and NONE_A in lv:
            (a,) = lv - NONE
            if a[0] == 'S' and len(a[1]) == 1 and not isinstance(a[1][0], str):
                sx = self.vstruct(a[1][0][1])
                if sx and sx[0] == 'grp':
                    if ls == NONE:
                        st.facts = st.facts | {('grp', sx[1], sx[2], 0)}
                    elif NONE_A not in ls:
                        st.facts = st.facts | {('grp', sx[1], sx[2], 1)}

    def ex_Compare(self, n, st):
        # value context: fork when the outcome narrows something
        saved = st.fork()
        T, F = self.split_compare(n, st)
        if not T and not F:
            return []
        if T and not F:
            return [(s, TRUE) for s, _ in T]
        if F and not T:
            return [(s, FALSE) for s, _ in F]
        ts = self.merge([s for s, _ in T])
        fs = self.merge([s for s, _ in F])
        return [(s, TRUE) for s in ts] + [(s, FALSE) for s in fs]

    def ex_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        res = []
        cur = [st]
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in cur:
                if last:
                    res += self.ev(x, s)
                    continue
                t, f = self.split(x, s)
                if isand:
                    res += f
                    nxt += [u for u, _ in t]
                else:
                    res += t
                    nxt += [u for u, _ in f]
            cur = self.merge(nxt)
            if not cur and not last:
                break
        return self.merge_rets(res) if len(res) > 6 else res

    def ex_IfExp(self, n, st):
        t, f = self.cond(n.test, st)
        res = []
        for s in t:
            res += self.ev(n.body, s)
        for s in f:
            res += self.ev(n.orelse, s)
        return res

    # -- attributes, subscripts ------------------------------------------------------------------
    def ex_Attribute(self, n, st):
        res = []
        for s, v in self.ev(n.value, st):
            out = EMPTY
            for a in v:
                r = self.getattr1(s, a, n.attr, n)
                if r is not None:
                    out = join(out, r, self.svn(n))
            if out:
                res.append((s, out))
        return res

    def getattr1(self, s, a, attr, n):
        k = a[0]
        if k == 'M':
            g = s.frames.get(('m', a[1]), {})
            if attr in g:
                return g[attr]
            if a[1] + '.' + attr in self.prog.modules:
                return V(('M', a[1] + '.' + attr))
            return V(top(('imp', a[1], attr)))
        if k == 'X':
            return self.ext_attr(a[1], attr)
        if k == 'C' and a[2] is None:
            self.raise_(s, 'AttributeError', 'none', n)
            return None
        if k == 'R':
            o = s.heap.get(a[1])
            if o is None:
                return V(top(self.svn(n)))
            if o.kind == 'inst':
                if o.attrs and attr in o.attrs:
                    v = o.attrs[attr]
                    if UNBOUND_A in v:
                        v = v - UNBOUND
                    return v or V(top(self.svn(n)))
                ck = o.m('ck')
                if ck is not None:
                    m = self.class_attr(s, ck, attr)
                    if m is not None:
                        out = EMPTY
                        for f in m:
                            if f[0] == 'F':
                                fi = self.prog.funcs[f[1]]
                                decs = [ast.unparse(d).split('.')[-1] for d in fi.decorators]
                                if 'staticmethod' in decs:
                                    out = join(out, V(f))
                                elif 'classmethod' in decs:
                                    out = join(out, V(('BF', ('K', ck), f[1], f[2])))
                                elif 'property' in decs:
                                    for _t, w in self.call_user(s, fi, f[2], [V(a)], {}, n):
                                        out = join(out, w)
                                else:
                                    out = join(out, V(('BF', a, f[1], f[2])))
                            else:
                                out = join(out, V(f))
                        return out
                elif isinstance(o.m('cls'), str) and not o.multi:
                    import builtins
                    c = getattr(builtins, o.m('cls'), None)
                    if isinstance(c, type) and issubclass(c, Exception) and not hasattr(c(), attr):
                        self.raise_(s, 'AttributeError', 'attr!', n)
                        return None
                return V(top(self.svn(n, attr)))
            if o.kind == 'res':
                if o.attrs and attr in o.attrs:
                    return o.attrs[attr]
                if o.m('rtype') == 'reqs' and attr in ('status_code', 'text', 'content', 'raw', 'ok', 'url', 'reason', 'headers'):
                    return self.xi_attr(s, ('XI', 'requests.Response', ('s', 'resp', a[1]), o.labels & self.flow_labels), attr, n)
            return V(('BM', a, attr))
        if k == 'K':
            m = self.class_attr(s, a[1], attr)
            if m is not None:
                return m
            if attr == '__name__':
                return cst(self.prog.classes[a[1]][0].name)
            return V(top(self.svn(n, attr)))
        if k == 'MT':
            if attr == 'string':
                return V(a[3]) if a[3] else V(S(self.svn(n)))
            if attr == 're':
                return V(('RX', a[1]))
            if attr in ('lastindex', 'pos', 'endpos'):
                return V(('N', self.mkvn(n, attr, a), NOL))
            if attr == 'lastgroup':
                return V(S(self.mkvn(n, attr, a)), NONE_A)
            return V(('BM', a, attr))
        if k == 'RX':
            if attr == 'pattern':
                R = rxm.REG[a[1]]
                return V(mkstr(R.parts)) if R.parts is not None else V(S(self.svn(n)))
            if attr == 'flags':
                return V(('N', None, NOL))
            return V(('BM', a, attr))
        if k in ('S', 'C') and attr in ('name', 'suffix', 'parent', 'stem'):
            return V(S(self.mkvn(n, 'path.' + attr, a), labels_of_atom(a)))
        if k in ('S', 'C', 'U', 'N', 'B'):
            return V(('BM', a, attr))
        if k == 'XI':
            return self.xi_attr(s, a, attr, n)
        if k == 'F' and attr in ('__name__', '__doc__', '__module__', '__qualname__'):
            return cst(self.prog.funcs[a[1]].name)
        if k == 'T':
            return V(top(self.mkvn(n, 'attr', a, attr), a[2]))
        return V(top(self.svn(n, attr), labels_of_atom(a)))

    def ex_Subscript(self, n, st):
        res = []
        if isinstance(n.slice, ast.Slice):
            parts = [n.slice.lower, n.slice.upper, n.slice.step]
            nodes = [p if p is not None else _NONE_NODE for p in parts]
            for s, (bv, lo, hi, step) in self.evs([n.value] + nodes, st):
                out = EMPTY
                for a in bv:
                    r = self.slice1(s, a, lo, hi, step, n)
                    if r is not None:
                        out = join(out, r, self.svn(n))
                if out:
                    res.append((s, out))
            return res
        for s, (bv, kv) in self.evs([n.value, n.slice], st):
            out = EMPTY
            for a in bv:
                r = self.getitem(s, a, kv, n)
                if r is not None:
                    out = join(out, r, self.svn(n))
            if out:
                res.append((s, out))
        return res

    def slice1(self, s, a, lo, hi, step, n):
        k = a[0]
        cl = getc(lo) if is_const(lo) else '?'
        ch = getc(hi) if is_const(hi) else '?'
        cs = getc(step) if is_const(step) else '?'
        for w in (lo, hi, step):
            for x in w:
                if is_str(x):
                    self.raise_(s, 'TypeError', 'index', n)
        if k == 'C' and a[2] is None:
            self.raise_(s, 'TypeError', 'none', n)
            return None
        if is_str(a):
            self.emit('slice', s, n, subj=a, lo=lo, hi=hi)
            if self.words:
                vl = self.w_vecs(V(a), lo, hi, step)
                if vl is not None:
                    try:
                        x = words.unvec([p[i:j:t] for p, i, j, t in zip(*vl[0])], vl[1])
                    except Exception:  # noqa
                        x = None
                    if x is not None:
                        return V(x)
            if k == 'C' and '?' not in (cl, ch, cs):
                return cst(a[2][cl:ch:cs])
            ps = parts_of(a)
            if cs is None and ch is None and isinstance(cl, int) and cl >= 0 and ps and isinstance(ps[0], str) \
                    and cl <= len(ps[0]):
                return V(mkstr((ps[0][cl:],) + ps[1:]))
            if cs is None and cl is None and isinstance(ch, int) and ch >= 0 and ps and isinstance(ps[0], str) \
                    and ch <= len(ps[0]):
                return cst(ps[0][:ch])
            if cs is None and cl is None and ch is None:
                return V(a)
            if cs is None and isinstance(ch, int) and ch < 0 and ps and isinstance(ps[-1], str) and -ch <= len(ps[-1]) \
                    and cl is None:
                return V(mkstr(ps[:-1] + (ps[-1][:ch],)))
            out = EMPTY
            los = lo if len(lo) <= 4 else V(('N', self.svn(n, 'lo'), labels_of(lo)))
            his = hi if len(hi) <= 4 else V(('N', self.svn(n, 'hi'), labels_of(hi)))
            sa = single(step)
            for x in los:
                for y in his:
                    lb = labels_of_atom(a)
                    out = join(out, V(S(self.vnargs(n, 'slice', a, x, y, sa or NONE_A), lb)), self.svn(n))
            return out
        if k == 'R':
            o = s.heap.get(a[1])
            if o is None:
                return V(top(self.svn(n)))
            if o.kind == 'list':
                if not o.rest and '?' not in (cl, ch, cs):
                    return V(self.new_list(s, n, items=o.items[cl:ch:cs], tag=a))
                if cs is None and ch is None and isinstance(cl, int) and 0 <= cl <= len(o.items):
                    return V(self.new_list(s, n, items=o.items[cl:], rest=o.rest,
                                           cnt=lin_add(o.cnt, (-cl, ())) if (cl <= len(o.items)) else None,
                                           labels=self.carry(o.labels), tag=a,
                                           meta=(('copyof', a[1]),) if cl == 0 else ()))
                full = cl is None and ch is None
                return V(self.new_list(s, n, items=o.items if cl is None and ch is None and cs is None else (),
                                       rest=join_all([o.rest] + (list(o.items) if not (full and cs is None) else [])),
                                       cnt=o.cnt if full and cs in (None, -1) else None,
                                       labels=self.carry(o.labels), tag=a))
            if o.kind == 'any':
                return V(top(self.svn(n)))
            if o.kind == 'dict':
                self.raise_(s, 'TypeError', 'index', n)
                return None
        if k == 'U':
            if '?' not in (cl, ch, cs):
                return V(('U', a[1][cl:ch:cs]))
            return V(self.new_list(s, n, rest=join_all(a[1]), cnt=None))
        if k == 'T':
            return V(top(self.vnargs(n, 'slice', a, single(lo) or NONE_A, single(hi) or NONE_A), a[2]))
        return V(top(self.svn(n, 'slice'), labels_of_atom(a)))

    def getitem(self, s, a, kv, n):
        k = a[0]
        if k == 'C' and a[2] is None:
            self.raise_(s, 'TypeError', 'none', n)
            return None
        if k == 'X':
            if a[1] == 'os.environ':
                self.emit('effect', s, n, eff='env', target=kv)
                return V(S(self.svn(n), frozenset(['env'])))
            return V(a)
        if k == 'MT':
            return self.mt_group(s, a, kv, n)
        if is_str(a):
            self.emit('strindex', s, n, subj=a, idx=kv)
            if self.words:
                vl = self.w_vecs(V(a), kv)
                if vl is not None:
                    try:
                        x = words.unvec([p[i] for p, i in zip(*vl[0])], vl[1])
                    except IndexError:
                        if all(not -len(p) <= i < len(p) for p, i in zip(*vl[0])):
                            self.raise_(s, 'IndexError', 'index!', n)
                            return None
                        x = None
                    except Exception:  # noqa
                        x = None
                    if x is not None:
                        return V(x)
            if k == 'C' and is_const(kv) and isinstance(getc(kv), int):
                try:
                    return cst(a[2][getc(kv)])
                except IndexError:
                    self.raise_(s, 'IndexError', 'index!', n)
                    return None
            if is_const(kv) and isinstance(getc(kv), int):
                i = getc(kv)
                ps = parts_of(a)
                if ps and i >= 0 and isinstance(ps[0], str) and i < len(ps[0]):
                    return cst(ps[0][i])
                if ps and i < 0 and isinstance(ps[-1], str) and -i <= len(ps[-1]):
                    return cst(ps[-1][i])
                if not (i in (0, -1) and self.truth1(a, s) is True):
                    self.maybe(s, 'IndexError', 'stridx?', n, subj=a, idx=kv)
            else:
                self.maybe(s, 'IndexError', 'stridx?', n, subj=a, idx=kv)
            x = single(kv)
            return V(S(self.vnargs(n, 'char', a, x or ('T', self.svn(n), NOL)), labels_of_atom(a)))
        if k == 'U':
            if is_const(kv) and isinstance(getc(kv), int):
                try:
                    return a[1][getc(kv)]
                except IndexError:
                    self.raise_(s, 'IndexError', 'index!', n)
                    return None
            return join_all(a[1])
        if k == 'R':
            o = s.heap.get(a[1])
            if o is None:
                return V(top(self.svn(n)))
            if o.kind == 'list':
                return self.list_get(s, a, o, kv, n)
            if o.kind == 'dict':
                return self.dict_get(s, a, o, kv, n)
            if o.kind == 'inst' and o.m('ck') is not None and self.class_attr(s, o.m('ck'), '__getitem__'):
                out = EMPTY
                for _t, w in self.call_method(s, a, '__getitem__', [kv], {}, n):
                    out = join(out, w)
                return out
            return V(top(self.svn(n), self.deep_labels(s, V(a))))
        if k == 'T':
            x = single(kv)
            self.maybe(s, 'LookupError', 'item?', n)
            return V(top(self.vnargs(n, 'item', a, x or ('T', self.svn(n), NOL)), a[2]))
        if k == 'XI':
            self.raise_(s, 'Exception', 'ext:' + a[1] + '[]', n)
            x = single(kv)
            return V(top(self.vnargs(n, 'item', a, x or ('T', self.svn(n), NOL)), a[3]))
        if k in ('N', 'B') or (k == 'C' and a[1] in ('int', 'bool', 'float')):
            self.raise_(s, 'TypeError', 'index', n)
            return None
        return V(top(self.svn(n), labels_of_atom(a)))

    def list_get(self, s, a, o, kv, n):
        if is_const(kv) and isinstance(getc(kv), int):
            i = getc(kv)
            if 0 <= i < len(o.items):
                return o.items[i]
            if not o.rest:
                if -len(o.items) <= i < 0:
                    return o.items[i]
                self.raise_(s, 'IndexError', 'index!', n)
                return None
            ne = self.truth1(a, s)
            if not (ne is True and i in (0, -1)):
                if not (o.cnt is not None and not o.cnt[1] and (i < o.cnt[0] if i >= 0 else -i <= o.cnt[0])):
                    self.maybe(s, 'IndexError', 'index?', n, oid=a[1], idx=i)
            v = o.rest
            if i < 0:
                v = join_all([v] + list(o.items)[max(0, len(o.items) + i):] if False else [v] + list(o.items))
            return self.item_ids(s, v, a, kv, n)
        if not o.items and not o.rest:
            self.raise_(s, 'IndexError', 'index!', n)
            return None
        if any(is_str(x) for x in kv):
            self.raise_(s, 'TypeError', 'index', n)
            kv = frozenset(x for x in kv if not is_str(x))
            if not kv:
                return None
        if any(x[0] == 'C' and x[2] is None for x in kv):
            self.raise_(s, 'TypeError', 'none', n)
        inr = False
        x = single(kv)
        if x is not None and x[0] == 'N' and isinstance(x[1], tuple) and o.cnt is not None:
            # an index ranging over the list's own length
            b = self.idx_bound(x, s)
            if b is not None and b == self.full_cnt(o):
                inr = True
        if not inr:
            self.maybe(s, 'IndexError', 'index?', n, oid=a[1], idx=kv)
        v = join_all([o.rest] + list(o.items))
        return self.item_ids(s, v, a, kv, n)

    def idx_bound(self, x, st):
        b = self.idxcnt.get(x[1])
        return b

    def item_ids(self, s, v, a, kv, n):
        """give an element read by a symbolic index an identity"""
        x = single(kv)
        if x is None or not self.simple(x) or not self.atom_grounded(x):
            base = None
        else:
            base = x
        out = set()
        for e in v:
            if base is not None and e[0] in ('S', 'T', 'N', 'B') and not self.atom_grounded(e):
                vn = self.mkvn(n, 'elt', a, base)
                if e[0] == 'S':
                    out.add(S(vn, labels_of_atom(e)))
                else:
                    out.add((e[0], vn, e[2]))
            else:
                out.add(e)
        return frozenset(out)

    def dict_get(self, s, a, o, kv, n, default=None, quiet=False):
        out = EMPTY
        for key in kv:
            if key[0] == 'R':
                self.maybe(s, 'TypeError', 'unhashable', n)
            e = o.ent.get(key)
            if e is not None and e[1] and (key[0] == 'C' or self.atom_grounded(key)):
                out = join(out, e[0], self.svn(n))
                continue
            v = EMPTY
            some = False
            for k2, (x, m) in o.ent.items():
                if self.atom_eq(key, k2, s) is not False:
                    v = join(v, x, self.svn(n))
                    some = True
            for k2 in o.restk:
                if self.atom_eq(key, k2, s) is not False:
                    v = join(v, o.rest, self.svn(n))
                    some = True
                    break
            if ('nk', a[1], key) in s.facts:
                some = False
                v = EMPTY
            factory = o.m('factory')
            if default is not None:
                v = join(v, default, self.svn(n))
            elif factory is not None:
                v = join(v, self.factory_val(s, factory, n))
            elif not some:
                self.raise_(s, 'KeyError', 'key!', n)
            elif not quiet:
                self.maybe(s, 'KeyError', 'key?', n, oid=a[1], key=key)
            out = join(out, v, self.svn(n))
        return out or None

    def factory_val(self, s, f, n):
        if f == ('X', 'list'):
            return V(self.new_list(s, n, tag='df'))
        if f == ('X', 'dict'):
            return V(self.new_dict(s, n, tag='df'))
        if f == ('X', 'set'):
            return V(self.new_set(s, n, tag='df'))
        if f == ('X', 'int'):
            return cst(0)
        if f == ('X', 'str'):
            return cst('')
        return V(top(self.svn(n, 'df')))

    # -- assignment ---------------------------------------------------------------------------------
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v)
            return [st]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            res = []
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for a in v:
                s = st.fork() if len(v) > 1 else st
                if a[0] == 'C' and a[2] is None:
                    self.raise_(s, 'TypeError', 'none', node)
                    continue
                if a[0] in ('N', 'B') or a[0] == 'C' and a[1] != 'str':
                    self.raise_(s, 'TypeError', 'unpack', node)
                    continue
                if a[0] == 'T':
                    vals = [V(top(self.mkvn(t, 'unp', a, i), a[2])) for i in range(n)]
                    exact = True
                else:
                    vals = None
                    sps = self.spec_of(s, a, t)
                    if not sps:
                        continue
                    s, sp = sps[0]
                    if not sp['rest']:
                        items = list(sp['items'])
                        if star:
                            k = star[0]
                            after = n - k - 1
                            if len(items) < n - 1:
                                self.raise_(s, 'ValueError', 'unpack', node)
                                continue
                            mid = items[k:len(items) - after]
                            vals = items[:k] + [V(self.new_list(s, t, items=mid))] + items[len(items) - after:]
                        elif len(items) != n:
                            self.raise_(s, 'ValueError', 'unpack', node)
                            continue
                        else:
                            vals = items
                    else:
                        j = join_all(list(sp['items']) + [sp['rest']])
                        c = sp.get('cnt')
                        if not star and not (c is not None and not c[1] and c[0] == n):
                            if c is not None and not c[1]:
                                self.raise_(s, 'ValueError', 'unpack', node)
                                continue
                            self.maybe(s, 'ValueError', 'unpack?', node)
                        vals = []
                        for i in range(n):
                            if i in star:
                                vals.append(V(self.new_list(s, t, rest=j, cnt=None)))
                            elif i < len(sp['items']) and not star:
                                vals.append(sp['items'][i])
                            else:
                                vals.append(j)
                cur = [s]
                for e, x in zip(t.elts, vals):
                    nx = []
                    for c in cur:
                        nx += self.assign(e, x, c, node)
                    cur = nx
                res += cur
            return self.merge(res) if len(res) > self.maxstates else res
        if isinstance(t, ast.Subscript):
            res = []
            if isinstance(t.slice, ast.Slice):
                for s, bv in self.ev(t.value, st):
                    for a in bv:
                        if a[0] == 'R' and a[1] in s.heap and s.heap[a[1]].kind == 'list':
                            o = s.heap[a[1]]
                            add = EMPTY
                            sl = self.const_slice(t.slice, s)
                            if sl is not None and len(v) == 1 and len(bv) == 1 and not o.rest and not o.multi:
                                sps = self.spec_of(s, single(v), t)
                                if len(sps) == 1 and not sps[0][1]['rest']:
                                    it = list(o.items)
                                    try:
                                        it[sl] = sps[0][1]['items']
                                    except ValueError:
                                        self.raise_(s, 'ValueError', 'slice', t)
                                        continue
                                    self.mutate(s, a[1], t, 'slice')
                                    s.put(a[1], o.but(items=tuple(it), cnt=(len(it), ())))
                                    continue
                            for x in v:
                                for s2, sp in self.spec_of(s, x, t):
                                    add = join_all([add, sp['rest']] + list(sp['items']))
                                    if t.slice.lower is None and t.slice.upper is None and len(v) == 1 and not o.multi:
                                        self.mutate(s2, a[1], t, 'slice')
                                        s2.put(a[1], o.but(items=tuple(sp['items']), rest=sp['rest'], cnt=sp.get('cnt')))
                                        add = None
                                        break
                                if add is None:
                                    break
                            if add is not None:
                                self.mutate(s, a[1], t, 'slice')
                                s.put(a[1], o.but(items=(), rest=join_all([o.rest, add] + list(o.items)), cnt=None))
                    res.append(s)
                return res
            for s, (bv, kv) in self.evs([t.value, t.slice], st):
                ok = False
                for a in bv:
                    if self.setitem(s, a, kv, v, t):
                        ok = True
                if ok:
                    res.append(s)
            return res
        if isinstance(t, ast.Attribute):
            res = []
            for s, bv in self.ev(t.value, st):
                for a in bv:
                    if a[0] == 'R':
                        o = s.heap.get(a[1])
                        if o is not None and o.attrs is not None:
                            self.mutate(s, a[1], t, 'attr:' + t.attr)
                            at = dict(o.attrs)
                            at[t.attr] = v if not o.multi and len(bv) == 1 else join(at.get(t.attr, EMPTY), v)
                            s.put(a[1], o.but(attrs=at))
                    elif a[0] == 'M':
                        self.emit('global_store', s, t, name=t.attr, mod=a[1], value=v)
                        s.setvar(('m', a[1]), t.attr, v)
                    elif a[0] == 'K':
                        self.emit('global_store', s, t, name=t.attr, mod='class', value=v)
                        if ('k', a[1]) in s.frames:
                            s.setvar(('k', a[1]), t.attr, v)
                    elif a[0] == 'F':
                        self.emit('global_store', s, t, name=t.attr, mod='func', value=v)
                    elif a[0] == 'C' and a[2] is None:
                        self.raise_(s, 'AttributeError', 'none', t)
                    elif a[0] == 'X':
                        self.emit('ext_store', s, t, name=a[1] + '.' + t.attr, value=v)
                    else:
                        self.emit('attr_store', s, t, atom=a, name=t.attr, value=v)
                res.append(s)
            return res
        return [st]

    def setitem(self, s, a, kv, v, n):
        if a[0] == 'C' and a[2] is None:
            self.raise_(s, 'TypeError', 'none', n)
            return False
        if a[0] == 'X':
            if a[1] == 'os.environ':
                self.emit('effect', s, n, eff='envset', target=kv)
            else:
                self.emit('ext_store', s, n, name=a[1], value=v)
            return True
        if a[0] != 'R':
            if a[0] in ('S', 'U') or a[0] == 'C':
                self.raise_(s, 'TypeError', 'setitem', n)
                return False
            self.emit('attr_store', s, n, atom=a, name='[]', value=v)
            return True
        o = s.heap.get(a[1])
        if o is None:
            return True
        if o.kind == 'dict':
            self.dict_set(s, a[1], kv, v, n)
        elif o.kind == 'list':
            self.mutate(s, a[1], n, 'setitem', val=v, key=kv)
            if is_const(kv) and isinstance(getc(kv), int) and not o.multi:
                i = getc(kv)
                if 0 <= i < len(o.items):
                    it = list(o.items)
                    it[i] = v
                    s.put(a[1], o.but(items=tuple(it)))
                    return True
                if not o.rest:
                    if -len(o.items) <= i < 0:
                        it = list(o.items)
                        it[i] = v
                        s.put(a[1], o.but(items=tuple(it)))
                        return True
                    self.raise_(s, 'IndexError', 'index!', n)
                    return False
            s.put(a[1], o.but(items=tuple(join(x, v) for x in o.items),
                              rest=join(o.rest, v, self.svn(n)) if o.rest else EMPTY))
        elif o.kind == 'inst' and o.m('ck') is not None:
            self.call_method(s, a, '__setitem__', [kv, v], {}, n)
        return True

    def mutate(self, s, oid, n, op, **kw):
        o = s.heap.get(oid)
        self.emit('mutate', s, n, oid=oid, obj=o, op=op, **kw)

    def dict_set(self, s, oid, kv, v, n, quiet=False):
        o = s.heap[oid]
        if not quiet:
            self.mutate(s, oid, n, 'setitem', val=v, key=kv)
            o = s.heap[oid]
        ent = dict(o.ent)
        rest, restk = o.rest, o.restk
        strong = len(kv) == 1 and not o.multi
        if any(f[0] == 'nk' and f[1] == oid for f in s.facts):
            s.facts = frozenset(f for f in s.facts if not (f[0] == 'nk' and f[1] == oid))
        for key in kv:
            ground = key[0] == 'C' or (key[0] in ('S', 'N', 'T', 'XI') and self.atom_grounded(key)) or key[0] in ('F', 'K', 'X')
            if ground:
                if key in ent:
                    ent[key] = (v, True) if strong else (join(ent[key][0], v, self.svn(n)), ent[key][1])
                else:
                    base = EMPTY
                    if not strong:
                        for k2 in restk:
                            if self.atom_eq(key, k2, s) is not False:
                                base = rest
                                break
                    ent[key] = (v, True) if strong else (join(base, v, self.svn(n)), False)
                if key[0] != 'C':
                    for k2 in list(ent):
                        if k2 != key and self.atom_eq(key, k2, s) is not False:
                            ent[k2] = (join(ent[k2][0], v, self.svn(n)), ent[k2][1])
            else:
                for k2 in list(ent):
                    if self.atom_eq(key, k2, s) is not False:
                        ent[k2] = (join(ent[k2][0], v, self.svn(n)), ent[k2][1])
                rest = join(rest, v, self.svn(n))
                restk = join(restk, V(key), self.svn(n, 'k'))
        nent = sum(1 for k in ent if k[0] != 'C')
        if nent > 12:
            for k in list(ent):
                if k[0] != 'C':
                    rest = join(rest, ent[k][0], self.svn(n))
                    restk = join(restk, V(k), self.svn(n, 'k'))
                    del ent[k]
        s.put(oid, o.but(ent=ent, rest=rest, restk=restk, cnt=None))

    def dict_merge(self, s, a, other, n):
        """a.update(other)"""
        o = s.heap[a[1]]
        if other[0] == 'R':
            b = s.heap.get(other[1])
            if b is None:
                return
            if b.kind == 'dict':
                for k, (v, m) in b.ent.items():
                    if m:
                        self.dict_set(s, a[1], V(k), v, n, quiet=True)
                    else:
                        o = s.heap[a[1]]
                        ent = dict(o.ent)
                        if k in ent:
                            ent[k] = (join(ent[k][0], v), ent[k][1])
                        else:
                            ent[k] = (v, False)
                        s.put(a[1], o.but(ent=ent))
                if b.restk:
                    o = s.heap[a[1]]
                    ent = {}
                    for k, (v, m) in o.ent.items():
                        if any(self.atom_eq(k, k2, s) is not False for k2 in b.restk):
                            v = join(v, b.rest)
                        ent[k] = (v, m)
                    s.put(a[1], o.but(ent=ent, rest=join(o.rest, b.rest), restk=join(o.restk, b.restk)))
                return
            if b.kind in ('list', 'set'):
                for it in list(b.items) + ([b.rest] if b.rest else []):
                    for x in it:
                        if x[0] == 'U' and len(x[1]) == 2:
                            if b.items and not b.rest:
                                self.dict_set(s, a[1], x[1][0], x[1][1], n, quiet=True)
                            else:
                                o = s.heap[a[1]]
                                s.put(a[1], o.but(rest=join(o.rest, x[1][1]), restk=join(o.restk, x[1][0])))
                        else:
                            o = s.heap[a[1]]
                            t = V(top(self.svn(n, 'dm'), self.deep_labels(s, V(x))))
                            s.put(a[1], o.but(rest=join(o.rest, t), restk=join(o.restk, t)))
                return
        if other[0] == 'C' and other[2] is None:
            self.raise_(s, 'TypeError', 'none', n)
            return
        labs = labels_of_atom(other)
        t = V(top(self.vnargs(n, 'dmv', other), labs))
        tk = V(top(self.vnargs(n, 'dmk', other), labs))
        o = s.heap[a[1]]
        ent = {k: (join(v, t), m) for k, (v, m) in o.ent.items()}
        s.put(a[1], o.but(ent=ent, rest=join(o.rest, t), restk=join(o.restk, tk)))

    def const_slice(self, sl, s):
        """python slice object of constant bounds, or None"""
        out = []
        for e in (sl.lower, sl.upper, sl.step):
            if e is None:
                out.append(None)
                continue
            r = self.ev(e, s)
            if len(r) != 1 or not is_const(r[0][1]):
                return None
            out.append(getc(r[0][1]))
        return slice(*out)

    def del_item(self, s, bv, kv, n):
        for a in bv:
            if a[0] != 'R':
                continue
            o = s.heap.get(a[1])
            if o is None:
                continue
            self.mutate(s, a[1], n, 'del', key=kv)
            if o.kind == 'dict':
                ent = dict(o.ent)
                for key in kv:
                    hit = False
                    for k2 in list(ent):
                        r = self.atom_eq(key, k2, s)
                        if r is True and len(kv) == 1 and not o.multi:
                            if not ent[k2][1]:
                                self.maybe(s, 'KeyError', 'key?', n, oid=a[1], key=key)
                            del ent[k2]
                            hit = True
                        elif r is not False:
                            ent[k2] = (ent[k2][0], False)
                            hit = True
                    if not hit and not o.restk:
                        self.raise_(s, 'KeyError', 'key!', n)
                s.put(a[1], o.but(ent=ent))
            elif o.kind == 'list':
                if is_const(kv) and not o.rest and isinstance(getc(kv), int) and not o.multi:
                    it = list(o.items)
                    try:
                        del it[getc(kv)]
                    except IndexError:
                        self.raise_(s, 'IndexError', 'index!', n)
                        return []
                    s.put(a[1], o.but(items=tuple(it), cnt=(len(it), ())))
                else:
                    self.maybe(s, 'IndexError', 'index?', n, oid=a[1], idx=kv)
                    s.put(a[1], o.but(items=(), rest=join_all([o.rest] + list(o.items)),
                                      cnt=lin_add(o.cnt, (-1, ())), ).setm('ne', None))
        return [s]

    def list_havoc(self, st, a, n, op):
        if a[0] == 'R':
            o = st.heap.get(a[1])
            if o is not None and o.kind == 'list':
                self.mutate(st, a[1], n, op)
                st.put(a[1], o.but(items=(), rest=join_all([o.rest] + list(o.items)), cnt=None).setm('ne', None))

    def list_append(self, s, a, v, n, quiet=False):
        o = s.heap[a[1]]
        if not quiet:
            self.mutate(s, a[1], n, 'append', val=v)
            o = s.heap[a[1]]
        cnt = lin_add(o.cnt, (1, ()))
        labels = o.labels
        if self.unord and not quiet or (quiet and self.unord):
            labels = labels | {'setorder'}
        if o.multi:
            s.put(a[1], o.but(rest=join_all([o.rest, v] + list(o.items), self.svn(n)), items=(), cnt=None, labels=labels))
        elif not o.rest and len(o.items) < (400 if self.words else 60):
            s.put(a[1], o.but(items=o.items + (v,), cnt=cnt, labels=labels))
        else:
            s.put(a[1], o.but(rest=join(o.rest, v, self.svn(n)), cnt=cnt, labels=labels).setm('ne', True))

    # -- calls ------------------------------------------------------------------------------------------
    def ex_Call(self, n, st):
        res = []
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            return [(st, V(('X', 'super')))]
        if isinstance(f, ast.Attribute):
            bases = self.ev(f.value, st)
            for s, bv in bases:
                for t, args, kwargs in self.ev_args(n, s):
                    # the base value's objects may have been renamed meanwhile
                    for a in bv:
                        u = t.fork() if len(bv) > 1 else t
                        if a == NONE_A and len(bv) > 1:
                            self.raise_(u, 'AttributeError', self.none_kind(u, bv), n)
                            continue
                        res += self.call_attr(u, a, f.attr, args, kwargs, n)
            return self.merge_rets(res) if len(res) > 8 else res
        for s, fv in self.ev(f, st):
            for t, args, kwargs in self.ev_args(n, s):
                for a in fv:
                    u = t.fork() if len(fv) > 1 else t
                    if a[0] == 'C' and a[2] is None:
                        self.raise_(u, 'TypeError', 'none', n)
                        continue
                    res += self.call(u, a, args, kwargs, n)
        return self.merge_rets(res) if len(res) > 8 else res

    def call_attr(self, s, a, attr, args, kwargs, n):
        k = a[0]
        if k in ('M', 'K') or (k == 'R' and s.heap.get(a[1]) is not None and s.heap[a[1]].kind == 'inst'
                               and (s.heap[a[1]].m('ck') is not None)):
            fv = self.getattr1(s, a, attr, n)
            res = []
            if fv is None:
                return []
            if k == 'R' and len(fv) == 1 and next(iter(fv))[0] == 'T' and \
                    not (s.heap[a[1]].attrs and attr in s.heap[a[1]].attrs):
                return self.call_method(s, a, attr, args, kwargs, n)
            for f in fv:
                u = s.fork() if len(fv) > 1 else s
                res += self.call(u, f, args, kwargs, n)
            return res
        if k == 'X':
            fv = self.ext_attr(a[1], attr)
            f = single(fv)
            if f and f[0] == 'X':
                return self.call_ext(s, f[1], args, kwargs, n)
            return [(s, V(top(self.svn(n), self.arg_labels(s, args, kwargs))))]
        return self.call_method(s, a, attr, args, kwargs, n)

    def ev_args(self, n, st):
        cur = [(st, [], {})]
        for x in n.args:
            nxt = []
            for s, args, kw in cur:
                if isinstance(x, ast.Starred):
                    for t, v in self.ev(x.value, s):
                        for a in v:
                            if a[0] == 'T':
                                kw2 = dict(kw)
                                kw2['*'] = join(kw2.get('*', EMPTY), V(top(self.svn(x), a[2])))
                                nxt.append((t, args, kw2))
                                continue
                            for u, sp in self.spec_of(t, a, x):
                                if sp['rest']:
                                    kw2 = dict(kw)
                                    kw2['*'] = join_all([kw2.get('*', EMPTY), sp['rest']] + list(sp['items']))
                                    nxt.append((u, args, kw2))
                                else:
                                    nxt.append((u, args + list(sp['items']), kw))
                else:
                    for t, v in self.ev(x, s):
                        nxt.append((t, args + [v], kw))
            cur = self.limit_args(nxt)
        for k in n.keywords:
            nxt = []
            for s, args, kw in cur:
                for t, v in self.ev(k.value, s):
                    kw2 = dict(kw)
                    if k.arg is not None:
                        kw2[k.arg] = v
                    else:
                        for a in v:
                            o = t.heap.get(a[1]) if a[0] == 'R' else None
                            if o is not None and o.kind == 'dict':
                                for kk, (vv, m) in o.ent.items():
                                    if kk[0] == 'C' and kk[1] == 'str':
                                        if m or True:
                                            kw2[kk[2]] = vv if kk[2] not in kw2 else join(kw2[kk[2]], vv)
                                    else:
                                        kw2['**'] = join(kw2.get('**', EMPTY), vv)
                                if o.restk:
                                    kw2['**'] = join(kw2.get('**', EMPTY), o.rest)
                            else:
                                kw2['**'] = join(kw2.get('**', EMPTY), V(top(self.svn(k.value), labels_of_atom(a))))
                    nxt.append((t, args, kw2))
            cur = self.limit_args(nxt)
        return cur

    def limit_args(self, lst):
        if len(lst) <= self.maxstates:
            return lst
        d = {}
        order = []
        for s, args, kw in lst:
            k = (self.reskey(s), tuple(self.valsig(v) for v in args), tuple(sorted((x, self.valsig(v)) for x, v in kw.items())))
            if k in d:
                t, a2, k2 = d[k]
                d[k] = (join_states(t, s), [join(x, y) for x, y in zip(a2, args)], {x: join(k2[x], kw[x]) for x in k2})
            else:
                d[k] = (s, args, kw)
                order.append(k)
        if len(d) > self.maxstates:
            d2 = {}
            for k in order:
                s, args, kw = d[k]
                k = (k[0], len(args), tuple(sorted(kw)))
                if k in d2:
                    t, a2, k2 = d2[k]
                    d2[k] = (join_states(t, s), [join(x, y) for x, y in zip(a2, args)], {x: join(k2[x], kw[x]) for x in k2})
                else:
                    d2[k] = (s, args, kw)
            return list(d2.values())
        return [d[k] for k in order]


_NONE_NODE = ast.Constant(value=None)


def _parse_percent(fmt):
    import re
    out = []
    pos = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', fmt):
        lit = fmt[pos:m.start()]
        if '%' in lit:
            return None
        if lit:
            out.append(lit)
        if m.group(3) == '%':
            out.append('%')
        else:
            out.append((m.group(1), m.group(3), m.group(2)))
        pos = m.end()
    tail = fmt[pos:]
    if '%' in tail:
        return None
    if tail:
        out.append(tail)
    return out
