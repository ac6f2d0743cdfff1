"""Static facts about regular expressions (parsed, never run on data)."""
import re
import warnings

try:
    import re._parser as sre
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sre
    import sre_constants as sc

HOLE = '\ue000'
MAXW = sre.MAXREPEAT if hasattr(sre, 'MAXREPEAT') else sc.MAXREPEAT


class RX:
    """A regular expression: pattern given as string parts (holes allowed)."""

    cache = {}

    def __init__(self, parts, flags):
        self.parts = parts
        self.flags = flags
        self.text = ''.join(p if isinstance(p, str) else HOLE for p in parts) if parts is not None else None
        self.holes = any(not isinstance(p, str) for p in parts) if parts is not None else True
        self.tree = None
        self.error = None
        self.groups = {}
        self.ngroups = 0
        if self.text is not None:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.tree = sre.parse(self.text, flags or 0)
                self.groups = dict(self.tree.state.groupdict)
                self.ngroups = self.tree.state.groups - 1
            except Exception as e:  # noqa
                self.error = str(e)
        self._always = None
        self._gtree = None

    @property
    def known(self):
        return self.tree is not None

    def nullable(self):
        return self.tree is None or self.tree.getwidth()[0] == 0

    def minwidth(self):
        return 0 if self.tree is None else self.tree.getwidth()[0]

    def maxwidth(self):
        return None if self.tree is None else self.tree.getwidth()[1]

    # -- groups ------------------------------------------------------------
    def _scan(self):
        if self._always is not None:
            return
        always = set()
        gtree = {}

        def walk(items, sure):
            for op, av in items:
                if op is sc.SUBPATTERN:
                    g, _a, _b, sub = av
                    if g is not None:
                        gtree[g] = sub
                        if sure:
                            always.add(g)
                    walk(sub, sure)
                elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', sc.MAX_REPEAT)):
                    lo, hi, sub = av
                    walk(sub, sure and lo > 0)
                elif op is sc.BRANCH:
                    subs = av[1]
                    before = set(always)
                    sets = []
                    for s in subs:
                        always.clear()
                        always.update(before)
                        walk(s, sure)
                        sets.append(set(always))
                    always.clear()
                    always.update(set.intersection(*sets) if sets else before)
                elif op in (sc.ASSERT,):
                    walk(av[1], sure)
                elif op is sc.ASSERT_NOT:
                    walk(av[1], False)
                elif op is sc.GROUPREF_EXISTS:
                    _g, yes, no = av
                    walk(yes, False)
                    if no:
                        walk(no, False)
                elif op is getattr(sc, 'ATOMIC_GROUP', None):
                    walk(av, sure)
        if self.tree is not None:
            walk(self.tree, True)
        self._always = always
        self._gtree = gtree

    def gid(self, name):
        if isinstance(name, bool):
            return None
        if isinstance(name, int):
            return name
        return self.groups.get(name)

    def has_group(self, name):
        """True / False / None (unknown)"""
        if self.tree is None:
            return None
        if isinstance(name, int):
            return 0 <= name <= self.ngroups
        if name in self.groups:
            return True
        return None if self.holes else False

    def always(self, name):
        """does the group take part in every match?  None: unknown"""
        if self.tree is None:
            return None
        g = self.gid(name)
        if g == 0:
            return True
        if g is None:
            return None
        self._scan()
        return g in self._always

    def group_min(self, name):
        """minimal width of the group's text when it takes part"""
        if self.tree is None:
            return 0
        g = self.gid(name)
        if g == 0:
            return self.minwidth()
        self._scan()
        t = self._gtree.get(g)
        return t.getwidth()[0] if t is not None else 0

    def group_tree(self, name):
        if self.tree is None:
            return None
        g = self.gid(name)
        if g == 0:
            return self.tree
        self._scan()
        return self._gtree.get(g)

    def group_names(self):
        return list(self.groups)

    # at least one of the groups takes part in every match?
    def covers(self, names):
        if self.tree is None:
            return None
        want = {self.gid(n) for n in names}
        if None in want:
            want.discard(None)

        def cov(items):
            for op, av in items:
                if op is sc.SUBPATTERN:
                    g, _a, _b, sub = av
                    if g in want or cov(sub):
                        return True
                elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                    lo, hi, sub = av
                    if lo > 0 and cov(sub):
                        return True
                elif op is sc.BRANCH:
                    if all(cov(s) for s in av[1]):
                        return True
                elif op is sc.ASSERT:
                    if cov(av[1]):
                        return True
            return False
        return cov(self.tree)

    # -- finite language -----------------------------------------------------
    def strings(self, name=0, limit=200):
        """finite set of strings of a group, or None"""
        t = self.group_tree(name)
        if t is None:
            return None
        return lang(t, limit)

    def digits_only(self, name):
        """True if the group's text consists of ASCII-int()-convertible chars;
        'uni' if of \\d (unicode decimal digits: convertible too, but any length)."""
        t = self.group_tree(name)
        if t is None:
            return None
        return _all_digits(t, self.flags or 0)


def _all_digits(items, flags):
    for op, av in items:
        if op is sc.LITERAL:
            if not (48 <= av <= 57):
                return False
        elif op is sc.IN:
            for o, a in av:
                if o is sc.LITERAL and 48 <= a <= 57:
                    continue
                if o is sc.RANGE and 48 <= a[0] and a[1] <= 57:
                    continue
                if o is sc.CATEGORY and a is sc.CATEGORY_DIGIT:
                    continue
                return False
        elif op is sc.CATEGORY:
            if av is not sc.CATEGORY_DIGIT:
                return False
        elif op is sc.SUBPATTERN:
            if not _all_digits(av[3], flags):
                return False
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if not _all_digits(av[2], flags):
                return False
        elif op is sc.BRANCH:
            if not all(_all_digits(s, flags) for s in av[1]):
                return False
        elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
            continue
        else:
            return False
    return True


def all_digits_to_end(R):
    """every match (from the start) is digits up to the end of the subject"""
    its = list(R.tree)
    if not its or its[-1][0] is not sc.AT or its[-1][1] not in (sc.AT_END, sc.AT_END_STRING):
        return False
    return _all_digits(its, R.flags or 0)


def open_end(R):
    """a match says nothing about the text after it"""
    if not R.known or R.holes:
        return False

    def has(items):
        for op, av in items:
            if op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING, sc.AT_BOUNDARY) or op in (sc.ASSERT, sc.ASSERT_NOT):
                return True
            if op is sc.SUBPATTERN and has(av[3]) or op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and has(av[2]) or \
                    op is sc.BRANCH and any(has(b) for b in av[1]):
                return True
        return False
    return not has(R.tree)


def lang(items, limit=200):
    out = {''}
    for op, av in items:
        if op is sc.LITERAL:
            nxt = {chr(av)}
        elif op is sc.IN:
            nxt = set()
            for o, a in av:
                if o is sc.LITERAL:
                    nxt.add(chr(a))
                elif o is sc.RANGE and a[1] - a[0] < 40:
                    nxt.update(chr(c) for c in range(a[0], a[1] + 1))
                else:
                    return None
        elif op is sc.SUBPATTERN:
            nxt = lang(av[3], limit)
        elif op is sc.BRANCH:
            nxt = set()
            for s in av[1]:
                r = lang(s, limit)
                if r is None:
                    return None
                nxt |= r
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if hi == MAXW or hi > 6:
                return None
            base = lang(sub, limit)
            if base is None:
                return None
            nxt = set()
            cur = {''}
            for i in range(0, hi + 1):
                if i >= lo:
                    nxt |= cur
                if i < hi:
                    cur = {x + y for x in cur for y in base}
                    if len(cur) > limit:
                        return None
        elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
            nxt = {''}
        else:
            return None
        if nxt is None:
            return None
        out = {x + y for x in out for y in nxt}
        if len(out) > limit:
            return None
    return out


def vectors(items, limit=300, keep=None):
    """the sets of groups (of those in keep) that can take part in one match (None: too many)"""
    out = {frozenset()}
    for op, av in items:
        if op is sc.SUBPATTERN:
            g, _a, _b, sub = av
            r = vectors(sub, limit, keep)
            if r is None:
                return None
            nxt = {x | {g} for x in r} if g is not None and (keep is None or g in keep) else r
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', sc.MAX_REPEAT)):
            lo, hi, sub = av
            r = vectors(sub, limit, keep)
            if r is None:
                return None
            nxt = set(r)
            if hi > 1:
                nxt |= {x | y for x in r for y in r}
            if lo == 0:
                nxt.add(frozenset())
        elif op is sc.BRANCH:
            nxt = set()
            for b in av[1]:
                r = vectors(b, limit, keep)
                if r is None:
                    return None
                nxt |= r
        elif op is sc.ASSERT:
            nxt = vectors(av[1], limit, keep)
        elif op is getattr(sc, 'ATOMIC_GROUP', None):
            nxt = vectors(av, limit, keep)
        elif op is sc.GROUPREF_EXISTS:
            _g, yes, no = av
            a, b = vectors(yes, limit, keep), vectors(no, limit, keep) if no else {frozenset()}
            nxt = None if a is None or b is None else a | b
        else:
            continue
        if nxt is None:
            return None
        if nxt != {frozenset()}:
            out = {x | y for x in out for y in nxt}
            if len(out) > limit:
                return None
    return out


def samples(items, limit=400):
    """representative strings of a pattern (every alternative, few characters of a class); None if not understood"""
    out = {''}
    for op, av in items:
        if op is sc.LITERAL:
            nxt = {chr(av)}
        elif op is sc.ANY:
            nxt = {'a', '0', ' '}
        elif op is sc.NOT_LITERAL:
            nxt = {c for c in 'aZ0 .' if ord(c) != av}
        elif op is sc.IN:
            nxt = set()
            if av and av[0][0] is sc.NEGATE:
                cls = re.compile('[^%s]' % ''.join(_cls(x) for x in av[1:]))
                nxt = {c for c in 'aZ0 .-' if cls.match(c)}
            else:
                for o, a in av:
                    if o is sc.LITERAL:
                        nxt.add(chr(a))
                    elif o is sc.RANGE:
                        nxt |= {chr(a[0]), chr(a[1])}
                    elif o is sc.CATEGORY:
                        r = re.compile(_cls((o, a)))
                        nxt |= {c for c in 'aZ0_ .-' if r.match(c)}
                    else:
                        return None
            nxt = set(sorted(nxt)[:6])
            if not nxt:
                return None
        elif op is sc.SUBPATTERN:
            nxt = samples(av[3], limit)
        elif op is sc.BRANCH:
            nxt = set()
            for b in av[1]:
                r = samples(b, limit)
                if r is None:
                    return None
                nxt |= r
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            base = samples(sub, limit)
            if base is None:
                return None
            nxt = set()
            for k in sorted({lo, min(lo + 1, hi), min(hi, 12)}):
                nxt |= {b * k for b in base}
        elif op in (sc.AT, sc.ASSERT_NOT, sc.ASSERT):
            return None if op is not sc.AT else out
        else:
            return None
        if nxt is None:
            return None
        out = {x + y for x in out for y in nxt}
        if len(out) > limit:
            out = set(sorted(out)[::max(1, len(out) // limit)])
    return out


_CAT = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D', 'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S',
        'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}


def _cls(x):
    o, a = x
    if o is sc.LITERAL:
        return re.escape(chr(a))
    if o is sc.RANGE:
        return re.escape(chr(a[0])) + '-' + re.escape(chr(a[1]))
    return _CAT[str(a)]


REG = {}


def intern(parts, flags):
    parts = None if parts is None else tuple(p if isinstance(p, str) else ('H', p[1], p[2]) for p in parts)
    key = ('rx', hash((parts, flags)) & 0xffffffffffff)
    k2 = key
    i = 0
    while k2 in REG and (REG[k2].parts != parts or REG[k2].flags != flags):
        i += 1
        k2 = key + (i,)
    if k2 not in REG:
        REG[k2] = RX(parts, flags)
    return k2
