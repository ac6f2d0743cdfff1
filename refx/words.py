"""Word terms: strings over constants and opaque words.

A hole whose value number is ('word', name[, cls]) stands for an arbitrary text.  An operation
on word terms is decided by a *uniformity* argument: it is evaluated for one representative
of every character class the words may be made of (letters, digits, punctuation - each
representative unique to its word, so that the result can be read back as a term); only if
all representatives give the same term is the result used, otherwise the analysis falls
back to an unknown string.  Numbers (positions, lengths) are kept as vectors, one component
per representative.
"""
import re
import unicodedata

from .dom import *  # noqa

CLASSES = ('letter', 'digit', 'punct')
_ND = [chr(c) for c in range(0x660, 0x1E000) if unicodedata.category(chr(c)) == 'Nd' and unicodedata.digit(chr(c), 0) in range(2, 9)]
# typed words: text with a fixed representative (given by the check)
INDEX = {}
TYPED = {}
_BACK = {}


def word(name, cls=None, labels=()):
    """atom of an opaque word; cls: fixed text (typed word)"""
    vn = ('word', name) if cls is None else ('word', name, cls)
    rep(vn, 0)
    return ('S', (('H', vn, frozenset(labels)),))


def rep(vn, c):
    if vn not in INDEX:
        k = INDEX[vn] = len(INDEX)
        if len(vn) > 2:
            t = vn[2]
            _BACK.setdefault(t[0], []).append((t, vn))
        else:
            for r in (chr(0x4E00 + k) * 3, _ND[k % len(_ND)] * 2, chr(0x2200 + k)):
                _BACK.setdefault(r[0], []).append((r, vn))
    k = INDEX[vn]
    if len(vn) > 2:
        return vn[2]
    return (chr(0x4E00 + k) * 3, _ND[k % len(_ND)] * 2, chr(0x2200 + k))[c]


def wordy(a):
    return a[0] == 'S' and all(isinstance(p, str) or (isinstance(p[1], tuple) and p[1] and p[1][0] == 'word') for p in a[1])


def vec(a):
    """vector of representatives of an atom, or None"""
    if a[0] == 'C':
        return (a[2],) * len(CLASSES)
    if wordy(a):
        return tuple(''.join(p if isinstance(p, str) else rep(p[1], c) for p in a[1]) for c in range(len(CLASSES)))
    if a[0] == 'N' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'wn':
        return a[1][1]
    return None


def unsub(s, labs):
    """term of a representative string; None if a word was cut"""
    out = []
    buf = []
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        cands = _BACK.get(ch)
        hit = None
        if cands:
            for r, vn in cands:
                if s.startswith(r, i):
                    hit = (r, vn)
                    break
            if hit is None and (ord(ch) > 0x5ff):
                return None
        if hit:
            if buf:
                out.append(''.join(buf))
                buf = []
            out.append(('H', hit[1], labs.get(hit[1], NOL)))
            i += len(hit[0])
        else:
            buf.append(ch)
            i += 1
    if buf:
        out.append(''.join(buf))
    return mkstr(out)


def labmap(*atoms):
    d = {}
    for a in atoms:
        if a[0] == 'S':
            for p in a[1]:
                if not isinstance(p, str):
                    d[p[1]] = d.get(p[1], NOL) | p[2]
    return d


def unvec(xs, labs):
    """atom for a vector of results or None"""
    x0 = xs[0]
    if all(x is None for x in xs):
        return NONE_A
    if any(x is None for x in xs):
        return None
    if all(isinstance(x, bool) for x in xs):
        return const(x0) if all(x == x0 for x in xs) else None
    if all(isinstance(x, int) for x in xs):
        if all(x == x0 for x in xs):
            return const(x0)
        if any(x < 0 for x in xs) != all(x < 0 for x in xs):
            return None
        return ('N', ('wn', tuple(xs)), NOL)
    if all(isinstance(x, str) for x in xs):
        ts = [unsub(x, labs) for x in xs]
        if any(t is None for t in ts) or any(t != ts[0] for t in ts):
            return None
        return ts[0]
    return None


class WordMatch:
    """vector of match objects of one abstract match"""
    tab = {}

    def __init__(self, ms, labs):
        self.ms = ms
        self.labs = labs
        self.id = len(WordMatch.tab)
        WordMatch.tab[self.id] = self


def wm(a):
    """WordMatch of a match atom"""
    v = a[2]
    if isinstance(v, tuple) and v and v[0] == 'wm':
        return WordMatch.tab[v[1]]
    return None


def match_atom(key, ms, subj, labs):
    return ('MT', key, ('wm', WordMatch(tuple(ms), labs).id), subj)


def compiled(R):
    """python pattern objects of an interned regex, one per representative; None if unknown"""
    if R.parts is None or R.error is not None:
        return None
    c = getattr(R, '_compiled', None)
    if c is None:
        c = []
        for k in range(len(CLASSES)):
            t = []
            for p in R.parts:
                if isinstance(p, str):
                    t.append(p)
                elif isinstance(p[1], tuple) and p[1] and p[1][0] == 'word':
                    r = rep(p[1], k)
                    t.append(re.escape(r) if 'esc' in p[2] else r)
                else:
                    return None
            try:
                c.append(re.compile(''.join(t), R.flags or 0))
            except Exception:  # noqa
                return None
        R._compiled = c = tuple(c)
    return c
