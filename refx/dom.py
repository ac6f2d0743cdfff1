"""Abstract domain of the refx static analyser.

A *Value* is a frozenset of atoms; an atom is a tagged tuple:

  ('C', type, v)            a constant
  ('S', parts)              a string made of constant pieces and holes;
                            hole = ('H', vn, labels); vn is a value number
  ('N', expr, labels)       a number (expr: symbolic expression or None)
  ('B', expr, labels)       a symbolic truth value
  ('U', (Value, ...))       a tuple
  ('R', oid)                a reference to a heap object
  ('F', fkey, fid)          a function of the analysed program (+ closure frame)
  ('BF', atom, fkey, fid)   bound method of the analysed program
  ('BM', atom, name)        bound method of a builtin / external object
  ('K', ckey)               a class of the analysed program
  ('M', name)               a module of the analysed program
  ('X', name)               an external (library/builtin) object
  ('XI', name, vn, labels)  an instance / result of an external library
  ('RX', key)               a compiled regular expression
  ('MT', key, vn, subj)     a (non-None) match of regex key on subject `subj`
  ('T', vn, labels)         anything
"""

NOL = frozenset()
EMPTY = frozenset()


def const(v):
    return ('C', type(v).__name__, v)


def V(*atoms):
    return frozenset(atoms)


NONE_A = const(None)
TRUE_A = const(True)
FALSE_A = const(False)
NONE = V(NONE_A)
TRUE = V(TRUE_A)
FALSE = V(FALSE_A)
BOOL = V(TRUE_A, FALSE_A)
UNBOUND_A = ('UNB',)
UNBOUND = V(UNBOUND_A)


def cst(v):
    return frozenset((const(v),))


def hole(vn, labels=NOL):
    return ('H', vn, labels)


def S(vn, labels=NOL):
    return ('S', (('H', vn, frozenset(labels)),))


def top(vn, labels=NOL):
    return ('T', vn, frozenset(labels))


def is_const(v):
    """python constant if Value is exactly one constant, else raises"""
    if len(v) == 1:
        (a,) = v
        if a[0] == 'C':
            return True
    return False


def getc(v):
    (a,) = v
    return a[2]


def single(v):
    if len(v) == 1:
        (a,) = v
        return a
    return None


STRLOG = []       # callbacks that see every string term built (set by a check)


def mkstr(parts):
    """normalise parts -> atom"""
    a = _mkstr(parts)
    for f in STRLOG:
        f(a)
    return a


def _mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
            else:
                out.append(p)
        else:
            out.append(p)
    for i, p in enumerate(out):
        # the order of characters in a character class is immaterial
        if not isinstance(p, str) and 'setjoin' in p[2] and 0 < i < len(out) - 1 and isinstance(out[i - 1], str) \
                and isinstance(out[i + 1], str) and out[i - 1].endswith(('[', '[^')) and out[i + 1].startswith(']'):
            out[i] = ('H', p[1], p[2] - {'setjoin', 'setorder'})
    if not out:
        return const('')
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    if len(out) > 40:
        labs = NOL
        for p in out:
            if not isinstance(p, str):
                labs |= p[2]
        return ('S', (('H', ('long', hash(tuple(out)) & 0xffffffff), labs),))
    return ('S', tuple(out))


def parts_of(atom):
    """string parts of a string-like atom or None"""
    if atom[0] == 'C' and atom[1] == 'str':
        return (atom[2],) if atom[2] else ()
    if atom[0] == 'S':
        return atom[1]
    return None


def labels_of_atom(a, depth=0):
    k = a[0]
    if k == 'S':
        r = NOL
        for p in a[1]:
            if not isinstance(p, str):
                r |= p[2]
        return r
    if k in ('N', 'B', 'T'):
        return a[2]
    if k == 'XI':
        return a[3]
    if k == 'U':
        r = NOL
        if depth < 6:
            for v in a[1]:
                r |= labels_of(v, depth + 1)
        return r
    if k == 'MT':
        return labels_of_atom(a[3]) if a[3] else NOL
    if k == 'BM':
        return labels_of_atom(a[1], depth + 1)
    return NOL


def labels_of(v, depth=0):
    r = NOL
    for a in v:
        if a[0] != 'C':
            r |= labels_of_atom(a, depth)
    return r


def has_top(v):
    return any(a[0] == 'T' for a in v)


MAXATOMS = 24
MAXSTR = 8


def join(a, b, vn=None):
    if a is b or a == b:
        return a
    r = a | b
    n = len(r)
    if n > MAXATOMS or (n > MAXSTR and sum(1 for x in r if x[0] == 'S') > MAXSTR):
        return squash(r, vn)
    return r


def squash(r, vn=None):
    """bound the number of atoms, keeping kinds apart"""
    strs = [x for x in r if x[0] == 'S' or (x[0] == 'C' and x[1] == 'str')]
    out = set(x for x in r if not (x[0] == 'S' or (x[0] == 'C' and x[1] == 'str')))
    if len(strs) > 6:
        labs = NOL
        for x in strs:
            labs |= labels_of_atom(x)
        out.add(('S', (('H', ('sq', vn), labs),)))
    else:
        out.update(strs)
    nums = [x for x in out if x[0] == 'N' or (x[0] == 'C' and x[1] in ('int', 'float'))]
    if len(nums) > 4:
        labs = NOL
        for x in nums:
            labs |= labels_of_atom(x)
            out.discard(x)
        out.add(('N', None, labs))
    tops = [x for x in out if x[0] == 'T']
    if len(tops) > 1:
        labs = NOL
        for x in tops:
            labs |= x[2]
            out.discard(x)
        out.add(('T', ('sq', vn), labs))
    bs = [x for x in out if x[0] == 'B']
    if len(bs) > 3:
        labs = NOL
        for x in bs:
            labs |= x[2]
            out.discard(x)
        out.add(('B', None, labs))
    ms = [x for x in out if x[0] == 'MT']
    if len(ms) > 14:
        for x in sorted(ms, key=repr)[14:]:
            out.discard(x)
        out.add(('T', ('sq', vn), NOL))
    us = [x for x in out if x[0] == 'U']
    if len(us) > 12:
        byl = {}
        for x in us:
            out.discard(x)
            byl.setdefault(len(x[1]), []).append(x)
        for n, xs in byl.items():
            vals = []
            for i in range(n):
                v = EMPTY
                for x in xs:
                    v = join(v, x[1][i], ('u', i, vn))
                vals.append(v)
            out.add(('U', tuple(vals)))
    if len(out) > 4 * MAXATOMS:
        labs = NOL
        for x in out:
            labs |= labels_of_atom(x)
        return frozenset([('T', ('sq', vn), labs)])
    return frozenset(out)


# --------------------------------------------------------------------------
# linear expressions for collection lengths:  (const, ((sym, coef), ...))


def lin(c, **_):
    return (c, ())


def lin_sym(sym):
    return (0, ((sym, 1),))


def lin_add(a, b):
    if a is None or b is None:
        return None
    d = dict(a[1])
    for s, k in b[1]:
        d[s] = d.get(s, 0) + k
    return (a[0] + b[0], tuple(sorted(((s, k) for s, k in d.items() if k), key=repr)))


def lin_mul(k, a):
    if a is None:
        return None
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


# --------------------------------------------------------------------------
# heap objects


class Obj:
    """immutable heap object"""

    __slots__ = ('kind', 'items', 'rest', 'ent', 'restk', 'attrs', 'cnt', 'meta',
                 'labels', 'multi', 'site', '_refs')
    FIELDS = ('kind', 'items', 'rest', 'ent', 'restk', 'attrs', 'cnt', 'meta',
              'labels', 'multi', 'site')

    def __init__(self, kind, items=(), rest=EMPTY, ent=None, restk=EMPTY, attrs=None,
                 cnt=None, meta=(), labels=NOL, multi=False, site=None):
        self.kind = kind      # list dict set inst gen res iter
        self.items = items    # list: known prefix
        self.rest = rest      # list/set: further elements; dict: values under unknown keys
        self.ent = ent        # dict: {key atom: (Value, must)}
        self.restk = restk    # dict: unknown keys
        self.attrs = attrs    # inst/res: {name: Value}
        self.cnt = cnt        # linear length or None
        self.meta = meta      # sorted tuple of (k, v)
        self.labels = labels
        self.multi = multi
        self.site = site
        self._refs = None

    def refs(self):
        r = self._refs
        if r is None:
            r = vrefs(self.rest)
            for x in self.items:
                if isinstance(x, frozenset):
                    r = r | vrefs(x)
            if self.kind == 'dict':
                r = r | vrefs(self.restk)
                for k, (v, _m) in self.ent.items():
                    if k[0] != 'C':
                        r = r | vrefs(frozenset((k,)))
                    r = r | vrefs(v)
            elif self.attrs:
                for v in self.attrs.values():
                    r = r | vrefs(v)
            self._refs = r
        return r

    def but(self, **kw):
        o = Obj.__new__(Obj)
        for f in Obj.FIELDS:
            setattr(o, f, kw[f] if f in kw else getattr(self, f))
        o._refs = None
        return o

    def key(self):
        return (self.kind, self.items, self.rest, self.ent, self.restk, self.attrs,
                self.cnt, self.meta, self.labels, self.multi)

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Obj):
            return False
        return self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def m(self, k, default=None):
        for kk, v in self.meta:
            if kk == k:
                return v
        return default

    def setm(self, k, v):
        d = dict(self.meta)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return self.but(meta=tuple(sorted(d.items(), key=lambda x: repr(x[0]))))

    def __repr__(self):
        return '<%s %s%s%s>' % (self.kind, 'multi ' if self.multi else '',
                                dict(self.ent) if self.ent else self.items,
                                (' rest=%s' % (self.rest,)) if self.rest else '')


def join_meta(a, b):
    if a == b:
        return a
    da, db = dict(a), dict(b)
    out = {}
    for k in set(da) | set(db):
        if isinstance(k, tuple) and k[0] == 'ld':      # loop delta: absent = not yet run
            if k not in da:
                out[k] = db[k]
            elif k not in db:
                out[k] = da[k]
            else:
                out[k] = da[k] if da[k] == db[k] else 'conflict'
        elif k in da and k in db:
            if da[k] == db[k]:
                out[k] = da[k]
            elif k == 'state':
                out[k] = tuple(sorted(set(da[k]) | set(db[k])))
        elif k == 'unord':
            out[k] = True
    return tuple(sorted(out.items(), key=lambda x: repr(x[0])))


def join_obj(a, b, vn=None):
    if a is b or a == b:
        return a
    if a.kind != b.kind:
        return Obj('any', labels=a.labels | b.labels, multi=True, site=a.site)
    labels = a.labels | b.labels
    multi = a.multi or b.multi
    meta = join_meta(a.meta, b.meta)
    cnt = a.cnt if a.cnt == b.cnt else None
    if a.kind == 'list':
        if len(a.items) == len(b.items):
            items = tuple(join(x, y, (vn, i)) for i, (x, y) in enumerate(zip(a.items, b.items)))
            rest = join(a.rest, b.rest, vn)
        else:
            n = min(len(a.items), len(b.items)) if (a.rest or b.rest) else 0
            n = 0
            items = ()
            rest = join(a.rest, b.rest, vn)
            for x in a.items + b.items:
                rest = join(rest, x, vn)
        return Obj('list', items=items, rest=rest, cnt=cnt, meta=meta, labels=labels,
                   multi=multi, site=a.site)
    if a.kind == 'dict':
        ent = {}
        for k in list(a.ent) + [k for k in b.ent if k not in a.ent]:
            if k in a.ent and k in b.ent:
                ent[k] = (join(a.ent[k][0], b.ent[k][0], (vn, k)), a.ent[k][1] and b.ent[k][1])
            else:
                v = (a.ent.get(k) or b.ent.get(k))[0]
                other = b if k in a.ent else a
                if other.restk:
                    v = join(v, other.rest, (vn, k))
                ent[k] = (v, False)
        return Obj('dict', ent=ent, rest=join(a.rest, b.rest, vn), restk=join(a.restk, b.restk, (vn, 'k')),
                   cnt=cnt, meta=meta, labels=labels, multi=multi, site=a.site)
    if a.kind in ('inst', 'res'):
        at = {}
        for k in set(a.attrs) | set(b.attrs):
            if k in a.attrs and k in b.attrs:
                at[k] = join(a.attrs[k], b.attrs[k], (vn, k))
            else:
                at[k] = join((a.attrs.get(k) or b.attrs.get(k)), UNBOUND, (vn, k))
        return Obj(a.kind, attrs=at, meta=meta, labels=labels, multi=multi, site=a.site)
    # set, iter, gen, any
    return Obj(a.kind, items=a.items if a.items == b.items else (), rest=join(a.rest, b.rest, vn)
               if a.items == b.items else join_all((a.rest, b.rest) + tuple(a.items) + tuple(b.items)),
               attrs=a.attrs if a.attrs == b.attrs else None,
               cnt=cnt, meta=meta, labels=labels, multi=multi, site=a.site)


def join_all(vs, vn=None):
    r = EMPTY
    for v in vs:
        r = join(r, v, vn)
    return r


# --------------------------------------------------------------------------
# renaming of value numbers and object ids


UNGROUND = frozenset(['s', 'old', 'sq', 'j', 'w', 'long', 'u', 'jo', 'ob', 'rv', 'idx'])


class VTable:
    """interned structured value numbers: ('v', k)"""

    def __init__(self):
        self.tab = []       # (parts, depth, lids, oids, grounded)
        self.idx = {}

    def scan(self, x, d=0):
        """(depth, lids, oids, grounded) of a vn / atom"""
        if not isinstance(x, tuple) or not x:
            return 0, NOL, NOL, True
        t = x[0]
        if t == 'v' and len(x) == 2:
            _p, dep, l, o, g = self.tab[x[1]]
            return dep, l, o, g
        if t == 'el':
            return 0, frozenset([x[1]]), NOL, True
        if t == 'C' or t == 'RX':
            return 0, NOL, NOL, True
        if t == 'R':
            return 0, NOL, frozenset([x[1]]), True
        if t == 'tmp':
            return 0, NOL, frozenset([x[1]]), True
        g = not (isinstance(t, str) and t in UNGROUND)
        if not g:
            return 0, NOL, NOL, False
        dep, lids, oids = 0, NOL, NOL
        if d > 20:
            return 20, NOL, NOL, False
        for y in x:
            if isinstance(y, tuple):
                a, b, c, e = self.scan(y, d + 1)
                dep = max(dep, a)
                lids |= b
                oids |= c
                g = g and e
        return dep, lids, oids, g

    def intern(self, ip, node, parts):
        k = self.idx.get(parts)
        if k is None:
            dep, lids, oids, g = self.scan(('t',) + parts)
            if dep > 10 and node is not None:
                return ip.svn(node, 'deep')
            k = len(self.tab)
            self.tab.append((parts, dep + 1, lids, oids, g))
            self.idx[parts] = k
        elif self.tab[k][1] > 11 and node is not None:
            return ip.svn(node, 'deep')
        return ('v', k)

    def ground(self, x):
        return self.scan(x)[3]


VT = VTable()


_VREFS = {}


def vrefs(v):
    """the object ids and loop identities a value mentions"""
    r = _VREFS.get(v)
    if r is None:
        r = NOL
        for a in v:
            if a[0] in _NOREF:
                continue
            r = r | arefs(a)
        _VREFS[v] = r
    return r


_NOREF = frozenset(['C', 'M', 'X', 'RX', 'K', 'UNB', 'F'])


def arefs(a):
    k = a[0]
    if k == 'R':
        return frozenset([a[1]])
    if k == 'U':
        r = NOL
        for v in a[1]:
            r = r | vrefs(v)
        return r
    if k in ('BM', 'BF'):
        return arefs(a[1]) if a[1][0] not in _NOREF else NOL
    r = NOL
    if k == 'S':
        for p in a[1]:
            if not isinstance(p, str):
                r = r | nrefs(p[1])
        return r
    if k in ('N', 'B', 'T'):
        return nrefs(a[1])
    if k == 'XI':
        return nrefs(a[2])
    if k == 'MT':
        r = nrefs(a[2])
        return r | arefs(a[3]) if a[3] else r
    return nrefs(a)


def nrefs(x):
    """refs of a value number"""
    if not isinstance(x, tuple) or not x:
        return NOL
    t = x[0]
    if t == 's' or t == 'C':
        return NOL
    if t == 'v' and len(x) == 2:
        _p, _d, l, o, _g = VT.tab[x[1]]
        return l | o
    if t == 'el':
        return frozenset([x[1]])
    if t in ('R', 'tmp'):
        return frozenset([x[1]])
    r = NOL
    for y in x:
        if isinstance(y, tuple):
            r = r | nrefs(y)
    return r


class Renamer:
    """rename value numbers / object ids inside values"""

    def __init__(self, vnmap, oidmap):
        self.vnmap = vnmap        # _ElMap or empty
        self.lid = getattr(vnmap, 'lid', None)
        self.oidmap = oidmap
        self.memo = {}
        self.vmemo = {}

    def vn(self, x):
        if not isinstance(x, tuple) or not x:
            return x
        t = x[0]
        if t == 's':
            return x
        if t == 'el':
            if self.lid is not None and x[1] == self.lid:
                return ('old',) + x[1:]
            return x
        if t == 'v' and len(x) == 2:
            r = self.memo.get(x)
            if r is not None:
                return r
            parts, dep, lids, oids, g = VT.tab[x[1]]
            if not (self.lid is not None and self.lid in lids) and not (self.oidmap and any(o in self.oidmap for o in oids)):
                r = x
            else:
                np = tuple((self.vn(y) if y and y[0] not in _ATOMTAGS else self.atom(y)) if isinstance(y, tuple) else y
                           for y in parts)
                r = VT.intern(None, None, np)
            self.memo[x] = r
            return r
        if t == 'tmp':
            n = self.oidmap.get(x[1]) if self.oidmap else None
            return ('tmp', n) if n is not None else x
        r = self.memo.get(x)
        if r is not None:
            return r
        changed = False
        out = []
        for y in x:
            if isinstance(y, tuple):
                z = self.vn(y) if y and y[0] not in _ATOMTAGS else self.atom(y)
                if z is not y:
                    changed = True
                out.append(z)
            else:
                out.append(y)
        r = tuple(out) if changed else x
        self.memo[x] = r
        return r

    def atom(self, a):
        k = a[0]
        if k in ('C', 'M', 'X', 'RX', 'K', 'UNB'):
            return a
        r = self.memo.get(a)
        if r is not None:
            return r
        if k == 'R':
            n = self.oidmap.get(a[1])
            r = ('R', n) if n is not None else a
        elif k == 'S':
            ch = False
            ps = []
            for p in a[1]:
                if not isinstance(p, str):
                    n = self.vn(p[1])
                    if n is not p[1]:
                        ch = True
                        p = ('H', n, p[2])
                ps.append(p)
            r = ('S', tuple(ps)) if ch else a
        elif k in ('N', 'B', 'T'):
            n = self.vn(a[1]) if isinstance(a[1], tuple) else a[1]
            r = a if n is a[1] else (k, n, a[2])
        elif k == 'XI':
            n = self.vn(a[2])
            r = a if n is a[2] else (k, a[1], n, a[3])
        elif k == 'U':
            vs = tuple(self.value(v) for v in a[1])
            r = a if all(x is y for x, y in zip(vs, a[1])) else ('U', vs)
        elif k == 'MT':
            n = self.vn(a[2])
            s = self.atom(a[3]) if a[3] else a[3]
            r = a if (n is a[2] and s is a[3]) else ('MT', a[1], n, s)
        elif k == 'BM':
            n = self.atom(a[1])
            r = a if n is a[1] else ('BM', n, a[2])
        elif k == 'BF':
            n = self.atom(a[1])
            r = a if n is a[1] else ('BF', n, a[2], a[3])
        else:
            r = a
        self.memo[a] = r
        return r

    def value(self, v):
        r = self.vmemo.get(v)
        if r is not None:
            return r
        ch = False
        out = []
        for a in v:
            b = self.atom(a)
            if b is not a:
                ch = True
            out.append(b)
        r = frozenset(out) if ch else v
        self.vmemo[v] = r
        return r

    def obj(self, o):
        if o.kind == 'list':
            items = tuple(self.value(x) for x in o.items)
            rest = self.value(o.rest)
            if rest is o.rest and all(x is y for x, y in zip(items, o.items)):
                return o
            return o.but(items=items, rest=rest)
        if o.kind == 'dict':
            ent = {}
            ch = False
            for k, (v, m) in o.ent.items():
                k2 = self.atom(k)
                v2 = self.value(v)
                if k2 is not k or v2 is not v:
                    ch = True
                if k2 in ent:
                    ent[k2] = (join(ent[k2][0], v2), ent[k2][1] and m)
                else:
                    ent[k2] = (v2, m)
            rest = self.value(o.rest)
            restk = self.value(o.restk)
            if not ch and rest is o.rest and restk is o.restk:
                return o
            return o.but(ent=ent, rest=rest, restk=restk)
        if o.attrs:
            at = {}
            ch = False
            for k, v in o.attrs.items():
                v2 = self.value(v)
                if v2 is not v:
                    ch = True
                at[k] = v2
            if ch:
                o = o.but(attrs=at)
        rest = self.value(o.rest)
        items = tuple(self.value(x) if isinstance(x, frozenset) else x for x in o.items)
        if rest is o.rest and all(x is y for x, y in zip(items, o.items)):
            return o
        return o.but(rest=rest, items=items)


_ATOMTAGS = frozenset(['C', 'S', 'N', 'B', 'U', 'R', 'F', 'BF', 'BM', 'K', 'M', 'X', 'XI', 'RX', 'MT', 'T', 'UNB'])


# --------------------------------------------------------------------------
# states


class State:
    __slots__ = ('frames', 'heap', 'facts', 'gh', '_fs', '_hs')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = NOL
        self.gh = ()
        self._fs = self._hs = False

    def fork(self):
        s = State.__new__(State)
        s.frames = self.frames
        s.heap = self.heap
        s.facts = self.facts
        s.gh = self.gh
        s._fs = s._hs = True
        self._fs = self._hs = True
        return s

    def wframes(self):
        if self._fs:
            self.frames = dict(self.frames)
            self._fs = False
        return self.frames

    def wheap(self):
        if self._hs:
            self.heap = dict(self.heap)
            self._hs = False
        return self.heap

    GDIRTY = {}         # global names stored to since the modules were loaded

    def setvar(self, fid, name, v):
        if fid[0] in 'mkd':
            State.GDIRTY.setdefault(fid, set()).add(name)
        fr = self.wframes()
        f = dict(fr[fid])
        f[name] = v
        fr[fid] = f

    def put(self, oid, obj):
        self.wheap()[oid] = obj

    def g(self, k, default=None):
        for kk, v in self.gh:
            if kk == k:
                return v
        return default

    def setg(self, k, v):
        d = dict(self.gh)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        self.gh = tuple(sorted(d.items(), key=repr))

    def same(self, o):
        return (self.gh == o.gh and self.facts == o.facts and self.frames == o.frames
                and self.heap == o.heap)

    def rename(self, vnmap, oidmap):
        """rename value numbers and object ids everywhere; renamed objects are
        merged (weakly) into the target id."""
        rn = Renamer(vnmap, oidmap)
        keys = set(oidmap)
        if rn.lid is not None:
            keys.add(rn.lid)
        if not keys:
            return
        disj = frozenset(keys).isdisjoint
        frames = self.wframes()
        for fid in list(frames):
            f = frames[fid]
            nf = None
            if fid[0] in 'mkd':
                if fid not in State.GDIRTY:
                    continue
                its = [(n, f[n]) for n in State.GDIRTY[fid] if n in f]
            else:
                its = f.items()
            for n, v in its:
                if isinstance(v, frozenset) and not disj(vrefs(v)):
                    v2 = rn.value(v)
                    if v2 is not v:
                        if nf is None:
                            nf = dict(f)
                        nf[n] = v2
            if nf is not None:
                frames[fid] = nf
        heap = self.wheap()
        late = []
        for oid in list(heap):
            o = heap[oid]
            o2 = o if disj(o.refs()) else rn.obj(o)
            if oid in oidmap:
                late.append((oidmap[oid], o2))
                del heap[oid]
            elif o2 is not o:
                heap[oid] = o2
        for oid, o in late:
            o = o.but(multi=True, cnt=o.cnt if (o.cnt is not None and not o.cnt[1]) else None)
            if oid in heap:
                heap[oid] = join_obj(heap[oid], o, ('ob', oid)).but(multi=True)
            else:
                heap[oid] = o
        if self.facts:
            fs = set()
            for f in self.facts:
                if f[0] == 'nk' and f[1] in oidmap:
                    continue
                if disj(nrefs(f)):
                    fs.add(f)
            self.facts = frozenset(fs)


def join_states(a, b):
    if a is b:
        return a
    s = State()
    s.gh = a.gh if a.gh == b.gh else tuple(sorted(
        ((k, v) for k, v in a.gh if (k, v) in b.gh), key=repr))
    s.facts = a.facts & b.facts
    frames = {}
    for fid in a.frames:
        fa = a.frames[fid]
        fb = b.frames.get(fid)
        if fb is None or fa is fb:
            frames[fid] = fa
            continue
        f = {}
        for n in fa:
            va = fa[n]
            if n in fb:
                vb = fb[n]
                if va is vb or va == vb or not isinstance(va, frozenset):
                    f[n] = va
                else:
                    f[n] = join(va, vb, ('j', fid, n))
            else:
                f[n] = join(va, UNBOUND) if isinstance(va, frozenset) else va
        for n in fb:
            if n not in fa:
                f[n] = join(fb[n], UNBOUND) if isinstance(fb[n], frozenset) else fb[n]
        frames[fid] = f
    for fid in b.frames:
        if fid not in frames:
            frames[fid] = b.frames[fid]
    s.frames = frames
    heap = {}
    ha, hb = a.heap, b.heap
    if ha is hb:
        s.heap = ha
        s._hs = True
        a._hs = b._hs = True
        return s
    for oid, o in ha.items():
        p = hb.get(oid)
        if p is None or p is o:
            heap[oid] = o
        else:
            heap[oid] = join_obj(o, p, ('jo', oid))
    for oid, p in hb.items():
        if oid not in heap:
            heap[oid] = p
    s.heap = heap
    return s
