"""Models of Python's builtin types and of the libraries the package uses."""
import ast
import builtins
import csv
import re

from . import rx as rxm
from . import words
from .dom import *  # noqa
from .dom import parts_of, single
from .words import wordy
from .expr import Exprs, is_num, is_str

RE_FLAGS = {k: int(getattr(re, k)) for k in
            ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'U', 'UNICODE', 'X', 'VERBOSE', 'A', 'ASCII',
             'L', 'LOCALE', 'NOFLAG')}

CANON = {
    'tempfile.mkstemp': 'tempfile.mkstemp',
    'io.open': 'open',
    'codecs.open': 'codecs.open',
    'os.unlink': 'os.remove',
    'pathlib.Path': 'pathlib.Path',
    'pypdf.PdfReader': 'pypdf.PdfReader',
    'datetime.datetime': 'datetime.datetime',
    'typing.cast': 'typing.cast',
    'requests.api.get': 'requests.get',
    're.Pattern.sub': 're.sub',
}

EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'WindowsError': 'OSError',
             're.error': 're.error', 're.PatternError': 're.error'}

# exceptions of libraries: name -> base
EXT_EXC = {
    're.error': 'Exception',
    'requests.exceptions.RequestException': 'OSError',
    'requests.RequestException': 'OSError',
    'requests.exceptions.HTTPError': 'requests.exceptions.RequestException',
    'requests.HTTPError': 'requests.exceptions.RequestException',
    'requests.exceptions.ConnectionError': 'requests.exceptions.RequestException',
    'requests.ConnectionError': 'requests.exceptions.RequestException',
    'requests.exceptions.Timeout': 'requests.exceptions.RequestException',
    'requests.exceptions.InvalidSchema': 'requests.exceptions.RequestException',
    'magic.MagicException': 'Exception',
    'pypdf.errors.PyPdfError': 'Exception',
    'csv.Error': 'Exception',
    'subprocess.SubprocessError': 'Exception',
    'subprocess.CalledProcessError': 'subprocess.SubprocessError',
    'subprocess.TimeoutExpired': 'subprocess.SubprocessError',
}

STR_RET_STR = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'replace',
               'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'translate', 'removeprefix', 'removesuffix'}
STR_RET_BOOL = {'startswith', 'endswith', 'isspace', 'isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum',
                'isupper', 'islower', 'istitle', 'isidentifier', 'isascii', 'isprintable'}
STR_RET_INT = {'find', 'rfind', 'index', 'rindex', 'count'}

PURE_EXT = {
    'os.path.basename', 'os.path.dirname', 'os.path.join', 'os.path.splitext', 'os.path.normpath', 'os.fspath',
    'urllib.parse.unquote', 'urllib.parse.quote', 'urllib.parse.urlparse', 'urllib.parse.urljoin', 'unidecode.unidecode',
    'unicodedata.normalize', 'html.unescape', 'html.escape', 'string.capwords',
    'inspire_utils.record.replace_undesirable_characters', 'textwrap.dedent', 'os.path.split',
}
STR_EXT = {
    'os.path.basename', 'os.path.dirname', 'os.path.join', 'os.path.normpath', 'os.fspath',
    'urllib.parse.unquote', 'urllib.parse.quote', 'urllib.parse.urljoin', 'unidecode.unidecode',
    'unicodedata.normalize', 'html.unescape', 'html.escape', 'string.capwords',
    'inspire_utils.record.replace_undesirable_characters', 'textwrap.dedent',
}


def _inty(x):
    try:
        int(x)
        return True
    except ValueError:
        return False


class Models(Exprs):
    unord = 0
    mime_values = ('application/pdf', 'text/plain', 'application/zip', 'inode/x-empty')
    env = {}                # scenario: answers of the environment that a rule fixes

    def env_path(self, args):
        return bool(args) and 'path' in labels_of(args[0])

    # -- names of external things -------------------------------------------------
    def canon(self, name):
        return CANON.get(name, name)

    def ext_attr(self, base, attr):
        name = self.canon(base + '.' + attr)
        if base == 're' and attr in RE_FLAGS:
            return cst(RE_FLAGS[attr])
        if name in ('os.sep',):
            return cst('/')
        if name == 'os.linesep':
            return cst('\n')
        if name == 'os.pathsep':
            return cst(':')
        if name in ('mmap.ACCESS_READ',):
            return cst(1)
        if name.startswith('string.') and attr in ('digits', 'ascii_letters', 'ascii_uppercase', 'ascii_lowercase',
                                                   'punctuation', 'whitespace'):
            import string
            return cst(getattr(string, attr))
        if name == 'sys.maxsize':
            return cst(9223372036854775807)
        return V(('X', name))

    def isa(self, cls, target):
        """is exception class `cls` a subclass of `target`?  None: perhaps"""
        cls = EXC_ALIAS.get(cls, cls)
        target = EXC_ALIAS.get(target, target)
        if cls == target or target == 'BaseException':
            return True
        seen = set()
        c = cls
        while c is not None and c not in seen:
            seen.add(c)
            if c == target:
                return True
            b = getattr(builtins, c, None) if '.' not in c else None
            t = getattr(builtins, target, None) if '.' not in target else None
            if isinstance(b, type) and issubclass(b, BaseException):
                if isinstance(t, type) and issubclass(t, BaseException):
                    if issubclass(b, t):
                        return True
                    # a general exception may be of the narrower class
                    if issubclass(t, b) and cls in ('Exception', 'BaseException', 'OSError', 'LookupError', 'ValueError',
                                                    'RuntimeError', 'ArithmeticError'):
                        return None
                    return False
                # target is an external/user class
                if cls == 'Exception':
                    return None
                # could the target be below c?
                tb = self.exc_base(target)
                while tb is not None:
                    if tb == cls:
                        return None
                    tb = self.exc_base(tb)
                return False
            nb = self.exc_base(c)
            if nb is None:
                return None if target not in ('Exception',) else True
            c = EXC_ALIAS.get(nb, nb)
        return None

    def exc_base(self, c):
        if c in EXT_EXC:
            return EXT_EXC[c]
        for cn, mod, qual in self.prog.classes:
            if qual == c:
                if cn.bases:
                    b = cn.bases[0]
                    nm = ast.unparse(b)
                    for _cn, m2, q2 in self.prog.classes:
                        if m2 == mod and q2.split('.')[-1] == nm:
                            return q2
                    return nm
                return 'object'
        b = getattr(builtins, c, None) if '.' not in c else None
        if isinstance(b, type) and issubclass(b, BaseException) and b is not BaseException:
            return b.__mro__[1].__name__
        if '.' in c and (c.endswith('Error') or c.endswith('Exception')):
            return 'Exception'
        return None

    # -- iteration -----------------------------------------------------------------------
    def spec(self, items=(), rest=EMPTY, cnt=None, labels=NOL, src=None):
        return dict(items=list(items), rest=rest, cnt=cnt, labels=labels, src=src)

    def spec_of(self, st, a, node):
        k = a[0]
        if self.charwise and is_str(a) and (k == 'C' and len(a[2]) <= 400 or k == 'S' and words.wordy(a)):
            # character by character; an opaque word is one "character"
            items = []
            for p in (a[2],) if k == 'C' else a[1]:
                items += [cst(c) for c in p] if isinstance(p, str) else [V(('S', (p,)))]
            return [(st, self.spec(items, cnt=(len(items), ()) if k == 'C' else None))]
        if k == 'C':
            if a[1] == 'str':
                if len(a[2]) <= 8:
                    return [(st, self.spec([cst(c) for c in a[2]], cnt=(len(a[2]), ())))]
                return [(st, self.spec(rest=V(S(self.svn(node, 'ch'))), cnt=(len(a[2]), ())))]
            if a[1] in ('bytes',):
                return [(st, self.spec(rest=V(('N', None, NOL))))]
            self.raise_(st, 'TypeError', 'none' if a[2] is None else 'iter', node)
            return []
        if k == 'S':
            return [(st, self.spec(rest=V(S(self.svn(node, 'ch'), labels_of_atom(a))), src=a))]
        if k == 'U':
            return [(st, self.spec(a[1], cnt=(len(a[1]), ())))]
        if k == 'R':
            o = st.heap.get(a[1])
            if o is None:
                return [(st, self.spec(rest=V(top(self.svn(node, 'el')))))]
            if o.kind == 'list':
                return [(st, self.spec(o.items, o.rest, o.cnt, o.labels, a))]
            if o.kind == 'dict':
                if o.ent and all(m for _v, m in o.ent.values()) and not o.restk:
                    return [(st, self.spec([V(x) for x in o.ent], cnt=(len(o.ent), ()), labels=o.labels, src=a))]
                r = frozenset(o.ent) | o.restk
                if len(r) > 60:
                    r = squash(r, self.svn(node))
                return [(st, self.spec(rest=r, labels=o.labels, src=a))]
            if o.kind == 'set':
                return [(st, self.set_spec(st, o, a))]
            if o.kind == 'gen':
                if o.m('done'):
                    return [(st, self.spec())]
                if self.words:
                    yl = self.new_list(st, node, (), tag=('yields', a[1]))

                    def cbw(s, v, n, yl=yl):
                        self.list_append(s, yl, v, n, quiet=True)
                        return [s]
                    return [(s, self.spec(s.heap[yl[1]].items, s.heap[yl[1]].rest, s.heap[yl[1]].cnt, src=None))
                            for s in self.run_generator(st, a[1], o, node, cbw)]
                ys = []
                acc = {}

                def cb(s, v, n):
                    ys.append(v)
                    return [s]
                states = self.run_generator(st, a[1], o, node, cb)
                j = join_all(ys, self.svn(node, 'y'))
                # elements produced at different resumptions are different values
                return [(s, self.spec(rest=j, src=a)) for s in states]
            if o.kind == 'res':
                return self.res_iter(st, a, o, node)
            if o.kind == 'inst' and o.m('ck') is not None:
                m = self.class_attr(st, o.m('ck'), '__iter__')
                if m:
                    res = []
                    for s, v in self.call_method(st, a, '__iter__', [], {}, node):
                        for x in v:
                            if x != a:
                                res += self.spec_of(s, x, node)
                    if res:
                        return res
            return [(st, self.spec(rest=V(top(self.svn(node, 'el'), self.deep_labels(st, V(a))))))]
        if k == 'T':
            self.maybe(st, 'TypeError', 'iter?', node)
            return [(st, self.spec(rest=V(top(self.vnargs(node, 'iter', a), a[2])), cnt=(0, ((('len', a), 1),)), src=a))]
        if k == 'XI':
            self.raise_(st, 'Exception', 'ext:iter(' + a[1] + ')', node)
            return [(st, self.spec(rest=V(top(self.svn(node, 'el'), a[3])), src=a))]
        if k in ('X', 'F', 'K', 'M', 'RX', 'MT', 'N', 'B', 'BM', 'BF'):
            if k in ('N', 'B', 'F', 'RX', 'MT'):
                self.raise_(st, 'TypeError', 'iter', node)
                return []
            return [(st, self.spec(rest=V(top(self.svn(node, 'el')))))]
        return [(st, self.spec(rest=V(top(self.svn(node, 'el')))))]

    def set_spec(self, st, o, a):
        if self.words:
            x = self.set_exact(o)
            if x is not None and len(x) <= 8:
                # one order stands for all: the checks on words compare what a set gives as sets
                return self.spec([V(y) for y in sorted(x, key=repr)], labels=o.labels, src=a, cnt=(len(x), ()))
        hashed = any(not is_num(x) and not (x[0] == 'C' and not isinstance(x[2], str)) for x in o.rest)
        if hashed and len(o.rest) > 1 or any(x[0] != 'C' for x in o.rest) and hashed:
            rest = self.relabel(o.rest, add='setorder')
            if self.track_order:
                # constants cannot carry a label: the element met at some position is unknown
                rest = frozenset(('S', (('H', ('setc', x[2]), frozenset(['setorder'])),)) if x[0] == 'C' and isinstance(x[2], str) else x
                                 for x in rest)
            return self.spec(rest=rest, labels=o.labels | {'setorder'}, src=a, cnt=o.cnt)
        return self.spec(rest=o.rest, labels=o.labels, src=a, cnt=o.cnt)

    def relabel(self, v, add=None, drop=None):
        out = set()
        for a in v:
            out.add(self.relabel_atom(a, add, drop))
        return frozenset(out)

    def relabel_atom(self, a, add, drop):
        def lb(x):
            if add:
                x = x | {add}
            if drop:
                x = x - {drop}
            return x
        k = a[0]
        if k == 'S':
            return ('S', tuple(p if isinstance(p, str) else ('H', p[1], lb(p[2])) for p in a[1]))
        if k in ('N', 'B', 'T'):
            return (k, a[1], lb(a[2]))
        if k == 'XI':
            return (k, a[1], a[2], lb(a[3]))
        if k == 'U':
            return ('U', tuple(self.relabel(x, add, drop) for x in a[1]))
        return a

    def joined(self, sp):
        return join_all([sp['rest']] + list(sp['items']))

    def specs(self, st, v, node):
        res = []
        for a in v:
            s = st.fork() if len(v) > 1 else st
            res += self.spec_of(s, a, node)
        return res

    # -- resources -------------------------------------------------------------------------
    def new_res(self, st, node, rtype, attrs=None, meta=(), labels=NOL, tag=None):
        a = self.alloc(st, node, Obj('res', attrs=attrs or {}, meta=tuple(sorted(
            [('state', ('open',)), ('rtype', rtype)] + list(meta), key=repr)), labels=labels), tag or rtype)
        self.emit('acquire', st, node, oid=a[1], rtype=rtype)
        return a

    def close_res(self, st, oid, node):
        o = st.heap.get(oid)
        if o is None:
            return
        self.emit('release', st, node, oid=oid, rtype=o.m('rtype'))
        st.put(oid, o.setm('state', ('closed',)))
        tf = o.m('tmpfile')
        if tf is not None and tf in st.heap:
            st.put(tf, st.heap[tf].setm('state', ('closed',)))
        if o.m('rtype') == 'proc':
            for v in (o.attrs or {}).values():
                for x in v:
                    if x[0] == 'R' and x[1] in st.heap and st.heap[x[1]].kind == 'res' and o.m('rtype') == 'proc' \
                            and not o.m('waited'):
                        self.close_res(st, x[1], node)

    def res_iter(self, st, a, o, node):
        rt = o.m('rtype')
        labs = o.labels & self.flow_labels
        if rt in ('file', 'pipe', 'fdopen'):
            if o.m('text', True) and o.m('errors') is None:
                self.raise_(st, 'UnicodeDecodeError', 'decode', node)
            if o.m('lines') is not None:
                return [(st, self.spec([cst(x) for x in o.m('lines')], src=a, cnt=(len(o.m('lines')), ())))]
            if o.m('text', True) is not False:
                return [(st, self.spec(rest=V(S(self.svn(node, 'line'), labs)), src=a))]
            return [(st, self.spec(rest=V(('XI', 'bytes', self.svn(node, 'line'), labs)), src=a))]
        return [(st, self.spec(rest=V(top(self.svn(node, 'line'), labs)), src=a))]

    def xi_attr(self, s, a, attr, n):
        if a[1] == 'requests.Response' and attr in ('text', 'content', 'raw'):
            self.emit('effect', s, n, eff='netread', target=V(a))
        if a[1] == 'requests.Response' and self.env.get('http') is not None and attr in ('status_code', 'ok'):
            return cst(self.env['http'] if attr == 'status_code' else self.env['http'] < 400)
        if a[1] == 'requests.Response' and attr == 'ok':
            return V(('B', self.mkvn(n, 'attr', a, attr), a[3]))
        if a[1] in ('requests.Response',) and attr in ('status_code',):
            return V(('N', self.mkvn(n, 'attr', a, attr), a[3]))
        if a[1] in ('requests.Response',) and attr in ('text', 'url', 'reason', 'encoding'):
            return V(S(self.mkvn(n, 'attr', a, attr), a[3]))
        if a[1] == 'requests.Response' and attr == 'content':
            return V(('XI', 'bytes', self.mkvn(n, 'attr', a, attr), a[3]))
        if self.words and a[1] == 'datetime' and attr == 'year':
            return cst(2026)      # word lines: any year will do
        if a[1] in ('datetime',) and attr in ('year', 'month', 'day', 'hour'):
            # the year is allowed to matter (it bounds what counts as a year)
            return V(('N', self.mkvn(n, 'attr', a, attr), a[3] - {'time'} if attr == 'year' else a[3]))
        if a[1].startswith('pypdf'):
            self.raise_(s, 'Exception', 'ext:' + a[1] + '.' + attr, n)
            return V(('XI', 'pypdf.' + attr, self.mkvn(n, 'attr', a, attr), a[3]))
        return V(top(self.mkvn(n, 'attr', a, attr), a[3]))

    # ============================================================================ methods
    def call_method(self, st, a, name, args, kwargs, node):
        self.stats['methods'] = self.stats.get('methods', 0) + 1
        k = a[0]
        if k == 'C' and a[2] is None:
            self.raise_(st, 'AttributeError', 'none', node)
            return []
        if name == '__getitem__' and len(args) == 1 and (is_str(a) or k == 'U' or (
                k == 'R' and a[1] in st.heap and st.heap[a[1]].kind in ('list', 'dict'))):
            v = self.getitem(st, a, args[0], node)
            return [(st, v)] if v else []
        if name == '__len__' and not args and (is_str(a) or k == 'U' or (
                k == 'R' and a[1] in st.heap and st.heap[a[1]].kind in ('list', 'dict', 'set'))):
            return self.x_len(st, [V(a)], {}, node)
        if is_str(a):
            return self.m_str(st, a, name, args, kwargs, node)
        if k == 'R':
            o = st.heap.get(a[1])
            if o is None:
                return [(st, V(top(self.svn(node), self.arg_labels(st, args, kwargs))))]
            if o.kind == 'list':
                return self.m_list(st, a, o, name, args, kwargs, node)
            if o.kind == 'dict':
                return self.m_dict(st, a, o, name, args, kwargs, node)
            if o.kind == 'set':
                return self.m_set(st, a, o, name, args, kwargs, node)
            if o.kind == 'res':
                return self.m_res(st, a, o, name, args, kwargs, node)
            if o.kind == 'inst':
                ck = o.m('ck')
                if o.m('exitstack'):
                    return self.m_exitstack(st, a, o, name, args, kwargs, node)
                if ck is not None:
                    m = self.class_attr(st, ck, name)
                    if m:
                        res = []
                        for f in m:
                            if f[0] == 'F':
                                res += self.call_user(st.fork(), self.prog.funcs[f[1]], f[2], [V(a)] + list(args),
                                                      kwargs, node)
                        return res
                    if name in ('__exit__',):
                        return [(st, NONE)]
                    if name == '__enter__':
                        return [(st, V(a))]
                return self.m_top(st, a, name, args, kwargs, node)
            if o.kind == 'gen':
                if name == 'close':
                    return [(st, NONE)]
                if name in ('__next__', 'send'):
                    return self.call_ext(st, 'next', [V(a)], {}, node)
            return self.m_top(st, a, name, args, kwargs, node)
        if k == 'RX':
            return self.m_regex(st, a, name, args, kwargs, node)
        if k == 'MT':
            return self.m_match(st, a, name, args, kwargs, node)
        if k == 'U':
            if name == 'index':
                self.maybe(st, 'ValueError', 'index?', node)
                return [(st, V(('N', self.svn(node), NOL)))]
            if name == 'count':
                return [(st, V(('N', self.svn(node), NOL)))]
            return [(st, V(top(self.svn(node))))]
        if k == 'XI':
            return self.m_xi(st, a, name, args, kwargs, node)
        if k == 'X':
            return self.call_ext(st, self.canon(a[1] + '.' + name), args, kwargs, node)
        if k in ('N', 'B') or k == 'C' and a[1] in ('int', 'float', 'bool'):
            if name in ('bit_length', 'to_bytes', 'is_integer', 'as_integer_ratio'):
                return [(st, V(top(self.svn(node))))]
            if k != 'N':
                self.raise_(st, 'AttributeError', 'attr', node)
                return []
            return [(st, V(top(self.svn(node))))]
        if k == 'C' and a[1] == 'bytes':
            if name == 'decode':
                try:
                    return [(st, cst(a[2].decode()))]
                except Exception:  # noqa
                    pass
            return self.m_xi(st, ('XI', 'bytes', self.svn(node), NOL), name, args, kwargs, node)
        if k in ('F', 'BF', 'BM', 'K'):
            return [(st, V(top(self.svn(node), self.arg_labels(st, args, kwargs))))]
        return self.m_top(st, a, name, args, kwargs, node)

    def m_top(self, st, a, name, args, kwargs, node):
        """method of an unknown object: nothing is known of the result"""
        labs = self.arg_labels(st, args, kwargs) | labels_of_atom(a)
        self.emit('topmethod', st, node, atom=a, name=name, args=args)
        flow = [x for v in args for x in v]
        # mutators of unknown objects
        if self.flow_maybe or (a[0] == 'T' and isinstance(a[1], tuple) and self.vroot(a[1]) == 'ext'):
            self.raise_(st, 'Exception', 'unkmeth:' + name, node)
        else:
            self.emit('mayraise', st, node, cls='Exception', what='unkmeth', info={'name': name})
        vn = self.vnargs(node, 'tm:' + name, a, *[single(v) or ('T', self.svn(node), NOL) for v in args]) \
            if self.simple(a) else self.svn(node)
        if name in STR_RET_STR or name in ('format', 'join', 'decode'):
            return [(st, V(S(vn, labs)))]
        if name in ('startswith', 'endswith', 'isdigit', 'isspace'):
            return [(st, V(('B', vn, labs)))]
        if name in ('append', 'extend', 'add', 'insert', 'sort', 'reverse', 'clear', 'remove', 'update', 'discard',
                    'pop', 'setdefault', 'popitem'):
            self.emit('mutate_unknown', st, node, atom=a, op=name)
            if name in ('append', 'extend', 'add', 'insert', 'sort', 'reverse', 'clear', 'remove', 'update', 'discard'):
                return [(st, NONE)]
        return [(st, V(top(vn, labs)))]

    # -- str -----------------------------------------------------------------------------
    def m_str(self, st, a, name, args, kwargs, node):
        if name in self.PATH_METHODS:
            return self.m_path(st, a, name, args, kwargs, node)
        if self.words:
            r = self.w_method(st, a, name, args, kwargs, node)
            if r is not None:
                return r
        labs = labels_of_atom(a) | self.arg_labels(st, args, kwargs)
        consts = a[0] == 'C' and all(is_const(v) for v in args) and not kwargs
        for v in args:
            for x in v:
                if x[0] == 'C' and x[2] is None and name in ('replace', 'startswith', 'endswith', 'join', 'find', 'count') \
                        and not (name in ('find', 'count') and v is not args[0]):
                    self.raise_(st, 'TypeError', 'none', node)
        if consts and name in STR_RET_STR | STR_RET_BOOL | {'find', 'rfind', 'count', 'encode'}:
            try:
                return [(st, cst(getattr(a[2], name)(*[getc(v) for v in args])))]
            except Exception:  # noqa
                pass
        if name in STR_RET_STR:
            out = EMPTY
            for combo in self.combos(args, node):
                out = join(out, self.str_ret(st, a, name, combo, node), self.svn(node))
            return [(st, out)]
        if name in STR_RET_BOOL:
            out = EMPTY
            for combo in self.combos(args, node):
                r = self.str_test(st, a, name, combo)
                if r is None:
                    B = ('B', self.vnargs(node, 'm:' + name, a, *combo), labs)
                    t = self.truth1(B, st)
                    out = join(out, V(B) if t is None else cst(t))
                else:
                    out = join(out, cst(r))
            return [(st, out)]
        if name in STR_RET_INT:
            if name in ('index', 'rindex'):
                self.maybe(st, 'ValueError', 'stridx', node)
            out = EMPTY
            for combo in self.combos(args, node):
                tag = 'find' if name in ('find', 'rfind') else ('index' if name in ('index', 'rindex') else 'cnt')
                out = join(out, V(('N', self.vnargs(node, tag, a, name, *combo), labs)))
            return [(st, out)]
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            if name in ('partition', 'rpartition'):
                combo = self.combos(args, node)[0]
                return [(st, V(('U', tuple(V(S(self.vnargs(node, name, a, i, *combo), labs)) for i in range(3)))))]
            if consts:
                try:
                    parts = getattr(a[2], name)(*[getc(v) for v in args])
                    return [(st, V(self.new_list(st, node, items=[cst(p) for p in parts])))]
                except Exception:  # noqa
                    pass
            if args and is_const(args[0]) and getc(args[0]) == '':
                self.raise_(st, 'ValueError', 'split', node)
                return []
            l = self.new_list(st, node, rest=V(S(self.svn(node, 'sp'), labs)), cnt=None,
                              meta=(('ne', True),) if (args and not (is_const(args[0]) and getc(args[0]) is None)
                                                       and name != 'splitlines') else ())
            return [(st, V(l))]
        if name == 'join':
            return self.str_join(st, a, args, node)
        if name == 'format':
            r = self.str_format(st, a, args, kwargs, node)
            return [(st, r)] if r else []
        if name == 'format_map':
            return [(st, V(S(self.svn(node), labs)))]
        if name == 'encode':
            if a[0] != 'C' and not (len(args) > 1 or 'errors' in kwargs):
                self.maybe(st, 'UnicodeEncodeError', 'encode', node)
            return [(st, V(('XI', 'bytes', self.vnargs(node, 'encode', a), labs)))]
        if name == 'maketrans':
            return [(st, V(top(self.svn(node))))]
        if name.startswith('__'):
            return [(st, V(top(self.svn(node), labs)))]
        self.raise_(st, 'AttributeError', 'attr', node)
        return []

    # -- word terms (see words.py) ---------------------------------------------------------
    def w_vecs(self, *vals):
        """(vectors, label map) of single-atom word values, or None"""
        out = []
        atoms = []
        for v in vals:
            a = single(v) if isinstance(v, frozenset) else v
            if a is None:
                return None
            if a[0] == 'U':
                sub = self.w_vecs(*a[1])
                if sub is None:
                    return None
                out.append(tuple(zip(*sub[0])) if sub[0] else ((),) * len(words.CLASSES))
                continue
            x = words.vec(a)
            if x is None:
                return None
            out.append(x)
            atoms.append(a)
        return out, words.labmap(*atoms)

    def w_method(self, st, a, name, args, kwargs, node):
        if kwargs or name not in STR_RET_STR | STR_RET_BOOL | STR_RET_INT | {
                'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}:
            return None
        if a[0] == 'C' and all(is_const(v) for v in args):
            return None
        vl = self.w_vecs(a, *args)
        if vl is None:
            return None
        (subj, *rest), labs = vl
        res = []
        for i, s in enumerate(subj):
            try:
                res.append(getattr(s, name)(*[r[i] for r in rest]))
            except Exception:  # noqa
                return None
        return self.w_result(st, res, labs, node)

    def w_result(self, st, res, labs, node):
        if all(isinstance(r, list) for r in res) or all(isinstance(r, tuple) for r in res):
            if len({len(r) for r in res}) != 1:
                return None
            items = [words.unvec(x, labs) for x in zip(*res)]
            if any(x is None for x in items):
                return None
            vs = [V(x) for x in items]
            if isinstance(res[0], tuple):
                return [(st, V(('U', tuple(vs))))]
            return [(st, V(self.new_list(st, node, items=vs)))]
        x = words.unvec(res, labs)
        return None if x is None else [(st, V(x))]

    def w_regex(self, st, a, name, args, kwargs, node):
        R = rxm.REG[a[1]]
        if self.rxhook is not None and args and not kwargs:
            subj = single(args[0])
            r = self.rxhook(self, st, R, a, name, subj, node) if subj is not None and is_str(subj) else None
            if r is not None:
                return r
        cs = words.compiled(R)
        if cs is None or kwargs or not args:
            return None
        vl = self.w_vecs(*args)
        if vl is None:
            return None
        vecs, labs = vl
        if not all(isinstance(x, str) for x in vecs[0]):
            return None
        subj = single(args[0])
        res = []
        for i, c in enumerate(cs):
            try:
                r = getattr(c, name)(*[v[i] for v in vecs])
                res.append(list(r) if name == 'finditer' else r)
            except Exception:  # noqa
                return None
        if name in ('match', 'search', 'fullmatch'):
            if all(r is None for r in res):
                return [(st, NONE)]
            if any(r is None for r in res):
                return None
            return [(st, V(words.match_atom(a[1], res, subj, labs)))]
        if name == 'finditer':
            if len({len(r) for r in res}) != 1:
                return None
            return [(st, V(self.new_list(st, node, items=[V(words.match_atom(a[1], ms, subj, labs)) for ms in zip(*res)],
                                         meta=(('finditer', True),))))]
        if name == 'findall' and res and all(r and isinstance(r[0], tuple) for r in res):
            if len({len(r) for r in res}) != 1:
                return None
            items = []
            for row in zip(*res):
                t = [words.unvec(x, labs) for x in zip(*row)]
                if any(x is None for x in t):
                    return None
                items.append(V(('U', tuple(V(x) for x in t))))
            return [(st, V(self.new_list(st, node, items=items)))]
        return self.w_result(st, res, labs, node)

    def w_sub(self, st, a, repl, sv, name, node, count=0):
        R = rxm.REG[a[1]]
        cs = words.compiled(R)
        if cs is None:
            return None
        vl = self.w_vecs(sv)
        if vl is None:
            return None
        (subj,), labs = vl
        if not all(isinstance(x, str) for x in subj):
            return None
        r = single(repl)
        if r is None:
            return None
        if is_str(r):
            rl = self.w_vecs(r)
            if rl is None:
                return None
            labs = {**labs, **rl[1]}
            self.emit('repl', st, node, atom=r)
            try:
                res = [c.subn(t, x, count) for c, t, x in zip(cs, rl[0][0], subj)]
            except Exception:  # noqa
                return None
            t = words.unvec([x for x, _n in res], labs)
            n = words.unvec([n for _x, n in res], labs)
            if t is None or n is None:
                return None
            return [(st, V(t) if name == 'sub' else V(('U', (V(t), V(n)))))]
        if r[0] not in ('F', 'BF', 'BM', 'R'):
            return None
        ms = [list(c.finditer(x))[:count or None] for c, x in zip(cs, subj)]
        if len({len(m) for m in ms}) != 1 or len(ms[0]) > 12:
            return None
        s0 = single(sv)
        cur = [(st, tuple('' for _ in subj), labs)]
        pos = [0] * len(subj)
        for row in zip(*ms):
            m = words.match_atom(a[1], row, s0, labs)
            pre = [x[p:y.start()] for x, p, y in zip(subj, pos, row)]
            pos = [y.end() for y in row]
            nxt = []
            for s, acc, lb in cur:
                for t, w in self.call(s, r, [V(m)], {}, node):
                    for x in w:
                        v = words.vec(x)
                        if v is None or not all(isinstance(y, str) for y in v):
                            return None
                        nxt.append((t if len(w) == 1 else t.fork(), tuple(p + q + y for p, q, y in zip(acc, pre, v)),
                                    {**lb, **words.labmap(x)}))
            if len(nxt) > 8:
                return None
            cur = nxt
        out = []
        for s, acc, lb in cur:
            t = words.unvec([p + x[q:] for p, x, q in zip(acc, subj, pos)], lb)
            if t is None:
                return None
            out.append((s, V(t) if name == 'sub' else V(('U', (V(t), cst(len(ms[0])))))))
        return out

    def combos(self, args, node, cap=12):
        out = [()]
        for v in args:
            vs = list(v)
            if len(vs) * len(out) > cap:
                x = squash(v, self.svn(node, 'cb'))
                labs = labels_of(v)
                if all(is_str(y) for y in v):
                    vs = [S(self.svn(node, 'cb'), labs)]
                else:
                    vs = [top(self.svn(node, 'cb'), labs)]
            out = [o + (x,) for o in out for x in vs]
        return out

    def str_ret(self, st, a, name, combo, node):
        labs = labels_of_atom(a)
        if name in ('replace',):
            for x in combo[:2]:
                labs |= labels_of_atom(x)
            # constants with nothing to replace
            if combo and combo[0][0] == 'C' and len(combo) >= 2 and combo[1][0] == 'C' and combo[0] == combo[1]:
                return V(a)
            if len(combo) >= 2 and combo[0] == const('\\') and combo[1] == const('\\\\'):
                labs |= {'esct'}
        if name in ('strip', 'lstrip', 'rstrip') and a[0] == 'S':
            ps = list(a[1])
            # strip constant ends exactly when the neighbouring part is a constant with other characters
            chars = combo[0][2] if combo and combo[0][0] == 'C' and combo[0][2] is not None else None
            if not combo or combo[0][0] == 'C':
                def cut(s, left):
                    return s.lstrip(chars) if left else s.rstrip(chars)
                okl = okr = True
                if name in ('strip', 'lstrip'):
                    if ps and isinstance(ps[0], str) and cut(ps[0], True):
                        ps[0] = cut(ps[0], True)
                    else:
                        okl = False
                if name in ('strip', 'rstrip'):
                    if ps and isinstance(ps[-1], str) and cut(ps[-1], False):
                        ps[-1] = cut(ps[-1], False)
                    else:
                        okr = False
                if okl and okr:
                    return V(mkstr(tuple(ps)))
        return V(S(self.vnargs(node, 'm:' + name, a, *combo), labs))

    def str_test(self, st, a, name, combo):
        if name in ('startswith', 'endswith') and len(combo) == 1:
            x = combo[0]
            ps = parts_of(a)
            if x[0] == 'C' and x[1] == 'str' and a[0] == 'S':
                if name == 'startswith' and isinstance(ps[0], str):
                    m = min(len(ps[0]), len(x[2]))
                    if ps[0][:m] != x[2][:m]:
                        return False
                    if len(ps[0]) >= len(x[2]):
                        return True
                if name == 'endswith' and isinstance(ps[-1], str):
                    m = min(len(ps[-1]), len(x[2]))
                    if m and ps[-1][-m:] != x[2][-m:]:
                        return False
                    if len(ps[-1]) >= len(x[2]):
                        return True
            if x[0] == 'U' and all(is_const(v) for v in x[1]):
                rs = []
                for v in x[1]:
                    if a[0] == 'C':
                        rs.append(getattr(a[2], name)(getc(v)))
                    else:
                        rs.append(self.str_test(st, a, name, (next(iter(v)),)))
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
        return None

    def str_join(self, st, a, args, node):
        res = []
        if not args:
            return [(st, V(S(self.svn(node))))]
        for s, sp in self.specs(st, args[0], node):
            bad = [x for v in list(sp['items']) + [sp['rest']] for x in v
                   if x[0] in ('N',) or (x[0] == 'C' and x[1] != 'str') or x[0] in ('R', 'U')]
            for x in bad[:1]:
                self.raise_(s, 'TypeError', 'none' if x == NONE_A else 'join', node)
            if not sp['rest']:
                cur = cst('')
                for i, v in enumerate(sp['items']):
                    if i:
                        cur = self.concat(cur, V(a), node)
                    v = frozenset(x for x in v if is_str(x)) or self.to_str(s, frozenset(x for x in v if x[0] == 'T'), node)
                    if not v:
                        cur = EMPTY
                        break
                    cur = self.concat(cur, v, node)
                if cur:
                    res.append((s, cur))
            else:
                labs = self.deep_labels(s, self.joined(sp)) | labels_of_atom(a) | (sp['labels'] & self.flow_labels)
                if 'setorder' in sp['labels']:
                    labs = labs | {'setjoin'}
                vn = self.svn(node, 'join')
                src = sp.get('src')
                res.append((s, V(S(vn, labs))))
        return res

    # -- list ---------------------------------------------------------------------------------
    def m_list(self, st, a, o, name, args, kwargs, node):
        oid = a[1]
        if name == 'append' and args:
            self.list_append(st, a, args[0], node)
            return [(st, NONE)]
        if name == 'extend' and args:
            res = []
            for s, sp in self.specs(st, args[0], node):
                self.mutate(s, oid, node, 'extend', val=self.joined(sp), spec=sp)
                o = s.heap[oid]
                labels = o.labels | (sp['labels'] & frozenset(['setorder']))
                cnt = lin_add(o.cnt, sp['cnt'])
                if not o.rest and not o.multi and len(o.items) + len(sp["items"]) < (400 if self.words else 60):
                    s.put(oid, o.but(items=o.items + tuple(sp['items']), rest=sp['rest'], cnt=cnt, labels=labels))
                else:
                    s.put(oid, o.but(rest=join_all([o.rest, sp['rest']] + list(sp['items']) +
                                                   (list(o.items) if o.multi else []), self.svn(node)),
                                     items=() if o.multi else o.items, cnt=cnt, labels=labels))
                res.append((s, NONE))
            return res
        if name == 'insert' and len(args) == 2:
            self.mutate(st, oid, node, 'insert', val=args[1])
            o = st.heap[oid]
            if is_const(args[0]) and not o.rest and not o.multi and isinstance(getc(args[0]), int):
                it = list(o.items)
                it.insert(getc(args[0]), args[1])
                st.put(oid, o.but(items=tuple(it), cnt=lin_add(o.cnt, (1, ()))))
            else:
                st.put(oid, o.but(items=(), rest=join_all([o.rest, args[1]] + list(o.items), self.svn(node)),
                                  cnt=lin_add(o.cnt, (1, ()))).setm('ne', True))
            return [(st, NONE)]
        if name == 'pop':
            self.mutate(st, oid, node, 'pop')
            o = st.heap[oid]
            if not o.items and not o.rest:
                self.raise_(st, 'IndexError', 'index!', node)
                return []
            if not o.rest and (not args or is_const(args[0])) and not o.multi:
                it = list(o.items)
                try:
                    v = it.pop(getc(args[0]) if args else -1)
                except IndexError:
                    self.raise_(st, 'IndexError', 'index!', node)
                    return []
                st.put(oid, o.but(items=tuple(it), cnt=(len(it), ())))
                return [(st, v)]
            if self.truth1(a, st) is not True or args:
                self.maybe(st, 'IndexError', 'index?', node, oid=oid, idx=args[0] if args else None)
            v = join_all([o.rest] + list(o.items))
            st.put(oid, o.but(items=(), rest=v, cnt=lin_add(o.cnt, (-1, ()))).setm('ne', None))
            return [(st, v)]
        if name == 'remove':
            self.mutate(st, oid, node, 'remove', val=args[0] if args else EMPTY)
            o = st.heap[oid]
            i = self.list_find(st, o, args[0] if args else EMPTY)
            if i is not None:
                if i < 0:
                    self.raise_(st, 'ValueError', 'remove!', node)
                    return []
                st.put(oid, o.but(items=o.items[:i] + o.items[i + 1:], cnt=lin_add(o.cnt, (-1, ()))))
                return [(st, NONE)]
            self.maybe(st, 'ValueError', 'remove?', node, oid=oid, val=args[0] if args else None)
            st.put(oid, o.but(items=(), rest=join_all([o.rest] + list(o.items)), cnt=lin_add(o.cnt, (-1, ()))).setm('ne', None))
            return [(st, NONE)]
        if name == 'clear':
            self.mutate(st, oid, node, 'clear')
            o = st.heap[oid]
            if not o.multi:
                st.put(oid, o.but(items=(), rest=EMPTY, cnt=(0, ())).setm('ne', None))
            return [(st, NONE)]
        if name in ('sort', 'reverse'):
            self.mutate(st, oid, node, name)
            o = st.heap[oid]
            if name == 'sort' and not o.rest and not o.multi:
                r = self.sort_known(st, o.items, kwargs, node)
                if r is not None:
                    st, its = r
                    st.put(oid, st.heap[oid].but(items=tuple(its)))
                    return [(st, NONE)]
            if 'key' in kwargs:
                st = self.call_key(st, kwargs['key'], join_all([o.rest] + list(o.items)), node)
                o = st.heap[oid]
            if name == 'reverse' and not o.rest and not o.multi:
                st.put(oid, o.but(items=tuple(reversed(o.items))))
            elif name == 'reverse' and not o.items:
                pass
            elif len(o.items) + (2 if o.rest else 0) > 1:
                rest = join_all([o.rest] + list(o.items))
                labels = o.labels
                if name == 'sort' and kwargs.get('key', NONE) in (NONE, V(('X', 'str')), V(('X', 'repr'))):
                    rest = self.relabel(rest, drop='setorder')
                    labels = labels - {'setorder'}
                elif name == 'sort':
                    rest = self.key_labels(st, kwargs['key'], rest)
                st.put(oid, o.but(items=(), rest=rest, labels=labels))
            return [(st, NONE)]
        if name in ('index', 'count'):
            if name == 'index' and len(args) == 1:
                i = self.list_find(st, o, args[0])
                if i is not None and i >= 0:
                    return [(st, cst(i))]
                if i is not None:
                    self.raise_(st, 'ValueError', 'index!', node)
                    return []
            if name == 'index':
                self.maybe(st, 'ValueError', 'index?', node)
            return [(st, V(('N', self.mkvn(node, 'index', ('s', self.nid(node), self.ctx)), NOL)))]
        if name == 'copy':
            return [(st, V(self.new_list(st, node, items=o.items, rest=o.rest, cnt=o.cnt, labels=self.carry(o.labels))))]
        if name.startswith('__'):
            return [(st, V(top(self.svn(node))))]
        self.raise_(st, 'AttributeError', 'attr', node)
        return []

    def list_find(self, st, o, v):
        """position of a value in a list of known shape: index, -1, or None (unknown)"""
        a = single(v)
        if a is None or o.rest or o.multi:
            return None
        for i, x in enumerate(o.items):
            rs = {self.atom_eq(a, y, st) for y in x}
            if rs == {True}:
                return i
            if rs != {False}:
                return None
        return -1

    def sort_known(self, st, items, kwargs, node):
        """(state, sorted items) if every key is a known constant, else None"""
        if not self.words or len(items) > 40:
            return None
        kv, ks = kwargs.get('key', NONE), []
        rev = kwargs.get('reverse', FALSE)
        if not is_const(rev):
            return None
        for v in items:
            k = v
            if kv != NONE:
                f = single(kv)
                if f is None or f[0] not in ('F', 'BF'):
                    return None
                rs = self.call(st, f, [v], {}, node)
                if len(rs) != 1:
                    return None
                st, k = rs[0]
            ka = single(k)
            kv2 = words.vec(ka) if ka is not None else None
            if kv2 is None:
                return None
            ks.append(kv2)
        try:
            orders = [sorted(range(len(ks)), key=lambda i: ks[i][c], reverse=bool(getc(rev))) for c in range(len(words.CLASSES))]
        except TypeError:
            return None
        if any(o != orders[0] for o in orders):
            return None
        return st, [items[i] for i in orders[0]]

    def key_labels(self, st, kv, j):
        for x in ('id', 'hash'):
            if V(('X', x)) & kv:
                j = self.relabel(j, add=x)
        if any(x[0] == 'X' and x[1].startswith(('locale.', 'random.')) for x in kv):
            j = self.relabel(j, add='locale')
        return j

    def call_key(self, st, kv, elem, node):
        """evaluate a key function for its reachability/effects; keep one state"""
        for f in kv:
            if f[0] in ('F', 'BF'):
                rs = self.call(st, f, [elem], {}, node)
                if rs:
                    s = rs[0][0]
                    for t, _ in rs[1:]:
                        s = join_states(s, t)
                    st = s
        return st

    # -- dict -----------------------------------------------------------------------------------
    def m_dict(self, st, a, o, name, args, kwargs, node):
        oid = a[1]
        if name == 'get':
            d = args[1] if len(args) > 1 else (kwargs.get('default') or NONE)
            if not args:
                return [(st, V(top(self.svn(node))))]
            v = self.dict_get(st, a, o, args[0], node, default=d)
            return [(st, v)] if v else []
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            self.mutate(st, oid, node, 'setdefault', val=d, key=args[0])
            o = st.heap[oid]
            key = single(args[0])
            if key is not None and key in o.ent and o.ent[key][1]:
                return [(st, o.ent[key][0])]
            v = self.dict_get(st, a, o, args[0], node, default=d)
            if key is not None:
                ent = dict(o.ent)
                if key[0] == 'C' or self.atom_grounded(key):
                    ent[key] = (v, True)
                    st.put(oid, o.but(ent=ent, cnt=None))
                else:
                    st.put(oid, o.but(rest=join(o.rest, v), restk=join(o.restk, V(key)), cnt=None))
            else:
                st.put(oid, o.but(rest=join(o.rest, v), restk=join(o.restk, args[0]), cnt=None))
            return [(st, v)]
        if name == 'update':
            self.mutate(st, oid, node, 'update', val=args[0] if args else EMPTY)
            for v in args:
                for x in v:
                    self.dict_merge(st, a, x, node)
            for k, v in kwargs.items():
                if k in ('*', '**'):
                    ob = st.heap[oid]
                    st.put(oid, ob.but(rest=join(ob.rest, v), restk=join(ob.restk, V(S(self.svn(node, 'kk'))))))
                else:
                    self.dict_set(st, oid, cst(k), v, node, quiet=True)
            return [(st, NONE)]
        if name in ('items', 'keys', 'values'):
            exact = o.ent and all(m for _v, m in o.ent.values()) and not o.restk
            items = []
            for k, (v, m) in o.ent.items():
                items.append(V(k) if name == 'keys' else v if name == 'values' else V(('U', (V(k), v))))
            rest = EMPTY
            if o.restk:
                rest = o.restk if name == 'keys' else o.rest if name == 'values' else V(('U', (o.restk, o.rest)))
            if not exact:
                rest = join_all([rest] + items, self.svn(node))
                items = []
            return [(st, V(self.new_list(st, node, items=items, rest=rest,
                                         cnt=(len(items), ()) if exact else None if rest else (0, ()), tag=(oid, name),
                                         labels=self.carry(o.labels), meta=(('view', oid),))))]
        if name == 'pop':
            self.mutate(st, oid, node, 'pop', key=args[0] if args else EMPTY)
            o = st.heap[oid]
            v = self.dict_get(st, a, o, args[0], node, default=args[1] if len(args) > 1 else None)
            key = single(args[0])
            ent = dict(o.ent)
            for k in list(ent):
                r = self.atom_eq(key, k, st) if key is not None else None
                if r is True and not o.multi:
                    del ent[k]
                elif r is not False:
                    ent[k] = (ent[k][0], False)
            st.put(oid, o.but(ent=ent, cnt=None))
            return [(st, v)] if v else []
        if name == 'popitem':
            self.mutate(st, oid, node, 'popitem')
            return [(st, V(top(self.svn(node), self.deep_labels(st, V(a)))))]
        if name == 'clear':
            self.mutate(st, oid, node, 'clear')
            o = st.heap[oid]
            if not o.multi:
                st.put(oid, o.but(ent={}, rest=EMPTY, restk=EMPTY, cnt=(0, ())))
            return [(st, NONE)]
        if name == 'copy':
            return [(st, V(self.new_dict(st, node, ent=dict(o.ent), rest=o.rest, restk=o.restk,
                                         labels=self.carry(o.labels), meta=tuple(x for x in o.meta if x[0] == 'factory'))))]
        if name in ('fromkeys',):
            return self.call_ext(st, 'dict.fromkeys', args, kwargs, node)
        if name in ('most_common', 'elements', 'move_to_end') or name.startswith('__'):
            return [(st, V(top(self.svn(node), self.deep_labels(st, V(a)))))]
        self.raise_(st, 'AttributeError', 'attr', node)
        return []

    # -- set --------------------------------------------------------------------------------------
    def m_set(self, st, a, o, name, args, kwargs, node):
        oid = a[1]
        if name == 'add':
            self.mutate(st, oid, node, 'add', val=args[0])
            o = st.heap[oid]
            st.put(oid, o.but(rest=join(o.rest, args[0], self.svn(node))).setm('ne', True))
            self.must_add(st, oid, args[:1], o.m('must', EMPTY))
            return [(st, NONE)]
        if name in ('update', 'intersection_update', 'difference_update'):
            self.mutate(st, oid, node, name)
            if name != 'update':
                st.put(oid, st.heap[oid].setm('must', None).setm('ne', None))
            if name == 'update':
                for v in args:
                    for s, sp in self.specs(st, v, node)[:1]:
                        st = s
                        o = st.heap[oid]
                        st.put(oid, o.but(rest=join(o.rest, self.relabel(self.joined(sp), drop='setorder'), self.svn(node))))
                        self.must_add(st, oid, sp['items'], self.must_of(st, v) | o.m('must', EMPTY))
            return [(st, NONE)]
        if name in ('discard', 'remove', 'clear', 'pop'):
            self.mutate(st, oid, node, name)
            o = st.heap[oid]
            if name == 'remove':
                self.maybe(st, 'KeyError', 'key?', node)
            if name == 'pop':
                self.maybe(st, 'KeyError', 'key?', node)
                return [(st, self.set_spec(st, o, a)['rest'] or V(top(self.svn(node))))]
            if name == 'clear' and not o.multi:
                st.put(oid, o.but(rest=EMPTY))
            if name in ('discard', 'remove') and self.words and not o.multi and len(args) == 1 and len(args[0]) == 1 \
                    and self.set_exact(o) is not None and all(x[0] == 'C' or wordy(x) for x in o.rest | args[0]):
                r = o.rest - args[0]
                st.put(oid, o.but(rest=r).setm('must', r or None).setm('ne', None))
                return [(st, NONE)]
            st.put(oid, st.heap[oid].setm('ne', None).setm('must', None))
            return [(st, NONE)]
        if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
            rest = o.rest
            if self.words and len(args) <= 1:
                ob = o if not args else None
                for x in (args[0] if args and len(args[0]) == 1 else ()):
                    ob = st.heap.get(x[1]) if x[0] == 'R' else None
                    if ob is not None and ob.kind != 'set':
                        st2 = self.x_set(st, args, {}, node)
                        ob = None
                        if len(st2) == 1:
                            st = st2[0][0]
                            (y,) = st2[0][1]
                            ob = st.heap.get(y[1])
                r = self.set_op(st, node, {'u': '|', 'i': '&', 'd': '-', 's': '^', 'c': '|'}[name[0]], o, ob)
                if r is not None:
                    return [(st, V(r))]
            if name in ('union', 'symmetric_difference'):
                for v in args:
                    for s, sp in self.specs(st, v, node)[:1]:
                        st = s
                        rest = join(rest, self.relabel(self.joined(sp), drop='setorder'))
            return [(st, V(self.new_set(st, node, rest)))]
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return [(st, V(('B', self.svn(node), NOL)))]
        if name.startswith('__'):
            return [(st, V(top(self.svn(node))))]
        self.raise_(st, 'AttributeError', 'attr', node)
        return []

    # -- files and other resources --------------------------------------------------------------------
    def m_res(self, st, a, o, name, args, kwargs, node):
        rt = o.m('rtype')
        oid = a[1]
        labs = o.labels & self.flow_labels
        text = o.m('text', True)
        if name in ('close', 'shutdown') or (name in ('wait', 'communicate', '__exit__', 'cleanup') and rt in ('proc', 'tmpdir', 'file', 'mmap')):
            if name in ('wait', 'communicate', '__exit__') and rt == 'proc':
                self.maybe(st, 'OSError', 'io', node)
                st.put(oid, st.heap[oid].setm('waited', True))
                if name in ('communicate', '__exit__'):
                    # reads and closes the pipes, then waits
                    for k, v in (o.attrs or {}).items():
                        for x in v:
                            if x[0] == 'R' and x[1] in st.heap and st.heap[x[1]].kind == 'res':
                                self.close_res(st, x[1], node)
                self.close_res(st, oid, node)
                if name == 'communicate':
                    return [(st, V(('U', (V(('XI', 'bytes', self.svn(node, 0), labs)), V(('XI', 'bytes', self.svn(node, 1), labs))))))]
                return [(st, V(('N', self.svn(node), NOL)))]
            self.close_res(st, oid, node)
            return [(st, NONE)]
        if rt == 'proc':
            if name in ('poll',):
                return [(st, V(('N', self.svn(node), NOL), NONE_A))]
            if name in ('kill', 'terminate', 'send_signal'):
                self.emit('effect', st, node, eff='kill', target=V(a))
                return [(st, NONE)]
        if name == 'fileno':
            return [(st, V(('N', self.mkvn(node, 'fileno', ('s', self.nid(node), self.ctx)), NOL)))]
        self.raise_(st, 'OSError', 'io', node) if rt in ('file', 'fdopen', 'pipe') and name in (
            'read', 'readline', 'readlines', 'write', 'writelines', 'flush', 'seek', 'truncate') else None
        if name in ('read', 'readline', 'readlines') and rt in ('file', 'fdopen', 'pipe'):
            if text and o.m('errors') is None:
                self.raise_(st, 'UnicodeDecodeError', 'decode', node)
            if o.m('lines') is not None and not args and name != 'readline':
                if name == 'read':
                    return [(st, cst(''.join(o.m('lines'))))]
                return [(st, V(self.new_list(st, node, [cst(x) for x in o.m('lines')])))]
            e = V(S(self.svn(node, 'rd'), labs)) if text else V(('XI', 'bytes', self.svn(node, 'rd'), labs))
            if name == 'readlines':
                return [(st, V(self.new_list(st, node, rest=e, cnt=None)))]
            return [(st, e)]
        if name in ('write', 'writelines'):
            self.emit('effect', st, node, eff='filewrite', target=V(a), data=args)
            return [(st, V(('N', None, NOL)))]
        if name in ('flush', 'seek', 'truncate', 'tell', 'detach', 'readable', 'isatty'):
            if name == 'truncate':
                self.emit('effect', st, node, eff='filewrite', target=V(a), data=args)
            return [(st, V(('N', None, NOL)))]
        if rt == 'mmap':
            if name in ('find', 'rfind'):
                return [(st, V(('N', self.mkvn(node, 'find', ('s', self.nid(node), self.ctx)), NOL)))]
            if name == 'size':
                return [(st, V(('N', self.mkvn(node, 'len', ('s', self.nid(node), self.ctx)), NOL)))]
            if name in ('move', 'resize', 'write', 'flush'):
                self.emit('effect', st, node, eff='filewrite', target=V(a), data=args)
                if name in ('move', 'resize'):
                    self.raise_(st, 'ValueError', 'mmap', node)
                return [(st, NONE)]
            if name in ('read', 'readline'):
                return [(st, V(('XI', 'bytes', self.svn(node), labs)))]
        if rt == 'reqs':
            return self.m_xi(st, ('XI', 'requests.Response', ('s', 'resp', oid), labs), name, args, kwargs, node)
        if rt == 'session':
            return self.call_ext(st, 'requests.' + name, args, kwargs, node)
        if name in ('__enter__',):
            return [(st, V(a))]
        return [(st, V(top(self.svn(node), labs | self.arg_labels(st, args, kwargs))))]

    def m_exitstack(self, st, a, o, name, args, kwargs, node):
        oid = a[1]
        if name in ('callback', 'push', 'enter_context'):
            n = o.m('n', 0)
            at = dict(o.attrs)
            at['cb%d' % n] = V(('U', tuple(args))) if name == 'callback' else args[0]
            st.put(oid, o.but(attrs=at).setm('n', n + 1))
            return [(st, args[0] if args else NONE)]
        return [(st, NONE)]

    # -- regular expressions -----------------------------------------------------------------------------
    def mk_regex(self, st, pat, flags, node):
        """Value of compiled patterns"""
        out = EMPTY
        fl = 0
        for f in flags:
            if f[0] == 'C' and isinstance(f[2], int):
                fl |= int(f[2])
            elif f[0] != 'C':
                fl = None
                break
        for p in pat:
            if p[0] == 'RX':
                out = join(out, V(p))
            elif is_str(p):
                self.emit('regex', st, node, atom=p, flags=fl)
                key = rxm.intern(parts_of(p), fl or 0)
                R = rxm.REG[key]
                if R.error is not None and not R.holes:
                    self.raise_(st, 're.error', 'regex!', node)
                    continue
                if R.holes and any(not isinstance(x, str) and 'esc' not in x[2] for x in R.parts):
                    self.maybe(st, 're.error', 'regex', node)
                out = join(out, V(('RX', key)), self.svn(node))
            elif p[0] == 'T':
                self.emit('regex', st, node, atom=p, flags=fl)
                key = rxm.intern((('H', p[1], p[2]),), fl or 0)
                self.maybe(st, 're.error', 'regex', node)
                out = join(out, V(('RX', key)), self.svn(node))
            elif p[0] == 'C' and p[2] is None:
                self.raise_(st, 'TypeError', 'none', node)
            else:
                key = rxm.intern(None, 0)
                out = join(out, V(('RX', key)), self.svn(node))
        return out

    def subject(self, st, v, node, cap=6):
        """string atoms of the subject argument"""
        out = []
        for a in v:
            if is_str(a):
                out.append(a)
            elif a[0] == 'T':
                out.append(S(self.mkvn(node, 'as', a), a[2]))
            elif a[0] == 'C' and a[2] is None:
                self.raise_(st, 'TypeError', self.none_kind(st, v), node)
            elif a[0] in ('N', 'B', 'R', 'U', 'MT') or a[0] == 'C':
                self.raise_(st, 'TypeError', 'resubj', node)
            elif a[0] == 'XI':
                out.append(S(self.mkvn(node, 'as', a), a[3]))
        if len(out) > cap:
            labs = NOL
            for a in out:
                labs |= labels_of_atom(a)
            out = [S(self.svn(node, 'subj'), labs)]
        return out

    def m_regex(self, st, a, name, args, kwargs, node):
        R = rxm.REG[a[1]]
        if self.words and name in ('match', 'search', 'fullmatch', 'finditer', 'findall', 'split'):
            r = self.w_regex(st, a, name, args, kwargs, node)
            if r is not None:
                return r
        if name in ('match', 'search', 'fullmatch', 'finditer', 'findall', 'split'):
            sv = args[0] if args else kwargs.get('string', EMPTY)
            rest = args[1:]
            subs = self.subject(st, sv, node)
            if not subs:
                return []
            if name in ('match', 'search', 'fullmatch'):
                out = set()
                for s in subs:
                    ra = tuple(single(v) or ('T', self.svn(node), NOL) for v in rest)
                    m = ('MT', a[1], self.vnargs(node, 'm', name, a, s, *ra), s)
                    f = self.mt_fact(st, m)
                    if f is not False:
                        out.add(m)
                    if f is not True and not (name == 'search' and R.known and R.nullable() and not rest):
                        out.add(NONE_A)
                    if s[0] == 'C' and R.known and not R.holes and not rest:
                        pass
                return [(st, frozenset(out))]
            if name == 'finditer':
                rest = frozenset(('MT', a[1], self.mkvn(node, 'fi', a, s), s) for s in subs)
                # every match is a different one: no identity outside an iteration
                rest = frozenset(('MT', m[1], ('s', self.nid(node), self.ctx, i), m[3]) for i, m in enumerate(sorted(rest, key=repr)))
                return [(st, V(self.new_list(st, node, rest=rest, cnt=None, meta=(('finditer', True),))))]
            labs = NOL
            for s in subs:
                labs |= labels_of_atom(s)
            if name == 'findall':
                n = R.ngroups if R.known else 0
                if R.known and n > 1:
                    e = V(('U', tuple(V(S(self.svn(node, 'fa', i), labs)) for i in range(n))))
                else:
                    e = V(S(self.svn(node, 'fa'), labs))
                return [(st, V(self.new_list(st, node, rest=e, cnt=None)))]
            e = V(S(self.svn(node, 'rs'), labs))
            if R.known and R.ngroups:
                e = join(e, NONE)
            return [(st, V(self.new_list(st, node, rest=e, cnt=None, meta=(('ne', True),))))]
        if name in ('sub', 'subn'):
            repl = args[0] if args else kwargs.get('repl', EMPTY)
            sv = args[1] if len(args) > 1 else kwargs.get('string', EMPTY)
            return self.re_sub(st, a, repl, sv, name, node, args[2] if len(args) > 2 else kwargs.get('count'))
        if name in ('groupindex', 'scanner'):
            return [(st, V(top(self.svn(node))))]
        return [(st, V(top(self.svn(node))))]

    def re_sub(self, st, a, repl, sv, name, node, count=None):
        if self.words and (count is None or is_const(count) and type(getc(count)) is int):
            r = self.w_sub(st, a, repl, sv, name, node, getc(count) if count is not None else 0)
            if r is not None:
                return r
        subs = self.subject(st, sv, node)
        if not subs:
            return []
        labs = NOL
        R = rxm.REG[a[1]]
        ratoms = []
        for r in repl:
            if is_str(r):
                self.emit('repl', st, node, atom=r)
                ratoms.append(r)
                labs |= labels_of_atom(r)
                if r[0] == 'C' and R.known and not R.holes:
                    for g in re.findall(r'\\(?:g<(\w+)>|(\d))', r[2]):
                        ref = g[0] or g[1]
                        ref = int(ref) if ref.isdigit() else ref
                        if R.has_group(ref) is False:
                            self.raise_(st, 're.error', 'regex!', node)
            elif r[0] in ('F', 'BF', 'BM', 'X', 'R', 'K'):
                m = frozenset(('MT', a[1], ('s', self.nid(node), self.ctx, i), s) for i, s in enumerate(subs))
                rs = self.call(st, r, [m], {}, node)
                if rs:
                    s0 = rs[0][0]
                    for t, w in rs:
                        if t is not s0:
                            s0 = join_states(s0, t)
                        labs |= self.deep_labels(t, w)
                        for x in w:
                            if x[0] == 'C' and x[1] != 'str':
                                self.raise_(t, 'TypeError', 'resub', node)
                    st = s0
                ratoms.append(('T', ('fn', r[1] if not isinstance(r[1], tuple) else 0), NOL))
            elif r[0] == 'C':
                self.raise_(st, 'TypeError', 'none' if r[2] is None else 'resub', node)
            else:
                labs |= labels_of_atom(r)
                ratoms.append(r)
        out = EMPTY
        for s in subs:
            ll = labs | labels_of_atom(s)
            ra = ratoms[0] if len(ratoms) == 1 else ('T', self.svn(node, 'rp'), NOL)
            vn = self.vnargs(node, 'sub', a, ra, s) if count is None else self.vnargs(node, 'sub', a, ra, s, single(count) or ('T', self.svn(node, 'sc'), NOL))
            x = V(S(vn, ll))
            if name == 'subn':
                x = V(('U', (x, V(('N', self.vnargs(node, 'cnt', a, ra, s), NOL)))))
            out = join(out, x, self.svn(node))
        return [(st, out)]

    def mt_fact(self, st, m):
        if ('t', m) in st.facts:
            return True
        if ('f', m) in st.facts:
            return False
        return None

    def mt_group(self, st, a, kv, node):
        R = rxm.REG[a[1]]
        out = EMPTY
        labs = labels_of_atom(a[3]) if a[3] else NOL
        for g in kv:
            if g[0] != 'C' or not isinstance(g[2], (str, int)):
                out = join(out, V(S(self.vnargs(node, 'grp?', a, g), labs), NONE_A), self.svn(node))
                continue
            if R.has_group(g[2]) is False:
                self.raise_(st, 'IndexError', 'nogroup', node)
                continue
            w = words.wm(a)
            if w is not None:
                try:
                    x = words.unvec([m.group(g[2]) for m in w.ms], w.labs)
                except IndexError:
                    x = None
                if x is not None:
                    out = join(out, V(x))
                    continue
            f1 = ('grp', a, g, 1) in st.facts
            f0 = ('grp', a, g, 0) in st.facts
            if f0:
                out = join(out, NONE)
                continue
            fin = None
            if R.known and not (R.flags & RE_FLAGS['I']) and not R.holes:
                fin = R.strings(g[2], 40)
            if fin is not None and fin:
                out = join(out, frozenset(const(x) for x in fin), self.svn(node))
            else:
                vn = self.mkvn(node, 'grp', a, g)
                if R.known and not R.holes and R.digits_only(g[2]):
                    self.digvn.add(vn)
                out = join(out, V(S(vn, labs | self.rx_labels(R))), self.svn(node))
            if R.known and R.always(g[2]) is not True and not f1:
                out = join(out, NONE)
        return out

    def rx_labels(self, R):
        return NOL

    def m_match(self, st, a, name, args, kwargs, node):
        R = rxm.REG[a[1]]
        labs = labels_of_atom(a[3]) if a[3] else NOL
        if name == 'group':
            if len(args) <= 1:
                v = self.mt_group(st, a, args[0] if args else cst(0), node)
                return [(st, v)] if v else []
            vs = tuple(self.mt_group(st, a, x, node) for x in args)
            return [(st, V(('U', vs)))] if all(vs) else []
        if name in ('start', 'end'):
            g = args[0] if args else cst(0)
            out = EMPTY
            for x in g:
                if x[0] == 'C' and R.has_group(x[2]) is False:
                    self.raise_(st, 'IndexError', 'nogroup', node)
                    continue
                w = words.wm(a)
                if w is not None and x[0] == 'C':
                    y = words.unvec([getattr(m, name)(x[2]) for m in w.ms], w.labs)
                    if y is not None:
                        out = join(out, V(y))
                        continue
                out = join(out, V(('N', self.vnargs(node, name, a, x), NOL)))
            return [(st, out)] if out else []
        if name == 'span' and words.wm(a) is not None and (not args or is_const(args[0])):
            w = words.wm(a)
            g = getc(args[0]) if args else 0
            x, y = (words.unvec([m.span(g)[i] for m in w.ms], w.labs) for i in (0, 1))
            if x is not None and y is not None:
                return [(st, V(('U', (V(x), V(y)))))]
        if name == 'span':
            g = single(args[0]) if args else const(0)
            g = g or ('T', self.svn(node), NOL)
            return [(st, V(('U', (V(('N', self.vnargs(node, 'start', a, g), NOL)), V(('N', self.vnargs(node, 'end', a, g), NOL))))))]
        if name == 'groupdict':
            d = args[0] if args else NONE
            ent = {}
            if R.known and not R.holes:
                for gname in R.group_names():
                    v = self.mt_group(st, a, cst(gname), node)
                    if NONE_A in v and d != NONE:
                        v = (v - NONE) | d
                    ent[const(gname)] = (v, True)
                return [(st, V(self.new_dict(st, node, ent=ent, tag=a[1])))]
            for gname in (R.group_names() if R.known else []):
                v = self.mt_group(st, a, cst(gname), node)
                ent[const(gname)] = (v, True)
            e = V(S(self.svn(node, 'gd'), labs), NONE_A)
            return [(st, V(self.new_dict(st, node, ent=ent, rest=e, restk=V(S(self.svn(node, 'gk'))), tag=a[1])))]
        if name == 'groups':
            if R.known and not R.holes:
                vs = tuple(self.mt_group(st, a, cst(i), node) for i in range(1, R.ngroups + 1))
                return [(st, V(('U', vs)))]
            return [(st, V(self.new_list(st, node, rest=V(S(self.svn(node, 'gs'), labs), NONE_A), cnt=None)))]
        if name == 'expand':
            for r in (args[0] if args else ()):
                if is_str(r) or r[0] == 'T':
                    self.emit('repl', st, node, atom=r)
            return [(st, V(S(self.svn(node), labs | self.arg_labels(st, args, kwargs))))]
        self.raise_(st, 'AttributeError', 'attr', node)
        return []

    # -- instances of libraries ------------------------------------------------------------------------------
    def m_xi(self, st, a, name, args, kwargs, node):
        t = a[1]
        labs = a[3] | self.arg_labels(st, args, kwargs)
        if t == 'Logger':
            self.emit('log', st, node, level=name, args=args)
            if len(args) > 1 and name != 'log':
                for r in args[0]:
                    if r[0] != 'C':
                        self.emit('fmtstr', st, node, atom=r, args=args[1])
            if name in ('isEnabledFor',):
                return [(st, V(('B', self.svn(node), NOL)))]
            return [(st, NONE)]
        if t == 'bytes':
            if name == 'decode':
                er = args[1] if len(args) > 1 else kwargs.get('errors')
                if er is None or (is_const(er) and getc(er) == 'strict'):
                    self.raise_(st, 'UnicodeDecodeError', 'decode', node)
                return [(st, V(S(self.mkvn(node, 'decode', a), labs)))]
            if name in STR_RET_STR:
                return [(st, V(('XI', 'bytes', self.mkvn(node, 'b:' + name, a), labs)))]
            if name in STR_RET_BOOL:
                return [(st, V(('B', self.svn(node), labs)))]
            if name in STR_RET_INT:
                return [(st, V(('N', self.mkvn(node, 'find', a), labs)))]
            if name in ('split', 'rsplit', 'splitlines'):
                return [(st, V(self.new_list(st, node, rest=V(('XI', 'bytes', self.svn(node, 'e'), labs)), cnt=None)))]
            return [(st, V(top(self.svn(node), labs)))]
        if t == 'requests.Response':
            if name == 'raise_for_status':
                if self.env.get('http') is None or self.env['http'] >= 400:
                    self.raise_(st, 'requests.exceptions.HTTPError', 'net', node)
                if self.env.get('http') is not None and self.env['http'] >= 400:
                    return []
                return [(st, NONE)]
            if name in ('iter_content', 'iter_lines', 'json'):
                self.emit('effect', st, node, eff='netread', target=V(a))
            if name in ('iter_content', 'iter_lines'):
                self.raise_(st, 'requests.exceptions.RequestException', 'net', node)
                return [(st, V(self.new_list(st, node, rest=V(('XI', 'bytes', self.svn(node, 'ch'), labs)), cnt=None)))]
            if name == 'json':
                self.raise_(st, 'ValueError', 'net', node)
                return [(st, V(top(self.svn(node), labs)))]
            return [(st, V(top(self.svn(node), labs)))]
        if t == 'datetime':
            if name in ('strftime', 'isoformat', 'ctime'):
                return [(st, V(S(self.mkvn(node, 'dt', a), labs)))]
            return [(st, V(('XI', 'datetime', self.mkvn(node, 'dt', a), labs)))]
        if t == 'hash':
            if name in ('hexdigest',):
                return [(st, V(S(self.svn(node), labs)))]
            return [(st, V(top(self.svn(node), labs)))]
        if t == 'pool':
            if name == 'map':
                return self.call_ext(st, 'map', args, kwargs, node)
            if name == 'submit':
                res = []
                for f in args[0]:
                    res += self.call(st.fork(), f, args[1:], {k: v for k, v in kwargs.items()}, node)
                return res
            return [(st, V(top(self.svn(node), labs)))]
        if t.startswith('pypdf'):
            self.raise_(st, 'Exception', 'ext:' + t + '.' + name, node)
            return [(st, V(('XI', 'pypdf.' + name, self.svn(node), labs)))]
        self.raise_(st, 'Exception', 'ext:' + t + '.' + name, node)
        return [(st, V(top(self.svn(node), labs)))]

    # ============================================================================ functions
    def call_ext(self, st, name, args, kwargs, node):
        name = self.canon(name)
        self.stats['extcalls'] += 1
        self.extseen.add(name)
        self.emit('ext', st, node, name=name, args=args, kwargs=kwargs)
        f = self.extstubs.get(name)
        if f is not None:
            return f(self, st, args, kwargs, node)
        f = getattr(self, 'x_' + name.replace('.', '_'), None)
        if f is not None:
            return f(st, args, kwargs, node)
        labs = self.arg_labels(st, args, kwargs)
        if name in PURE_EXT:
            at = [single(v) or ('T', self.svn(node), NOL) for v in args]
            if name in STR_EXT:
                for v in args[:1]:
                    for x in v:
                        if x == NONE_A:
                            self.raise_(st, 'TypeError', 'none', node)
                return [(st, V(S(self.vnargs(node, name, *at), labs)))]
            return [(st, V(top(self.vnargs(node, name, *at), labs)))]
        if name in builtins.__dict__ and isinstance(getattr(builtins, name), type) and \
                issubclass(getattr(builtins, name), BaseException):
            return self.mk_exc(st, name, args, kwargs, node)
        if name in EXT_EXC or name.endswith('Error') or name.endswith('Exception'):
            return self.mk_exc(st, name, args, kwargs, node)
        if name.startswith('logging.'):
            if name == 'logging.getLogger':
                return [(st, V(('XI', 'Logger', ('log',), NOL)))]
            if name.split('.')[1] in ('debug', 'info', 'warning', 'error', 'exception', 'critical'):
                return [(st, NONE)]
            return [(st, V(top(self.svn(node))))]
        if name.startswith('re.'):
            return self.x_re(st, name[3:], args, kwargs, node)
        eff = self.ext_effect(name)
        if eff:
            self.emit('effect', st, node, eff=eff, target=args[0] if args else EMPTY, name=name, args=args, kwargs=kwargs)
            labs = labs | {{'env': 'env', 'time': 'time', 'random': 'random', 'net': 'net', 'locale': 'locale',
                            'fsread': 'fs'}.get(eff, 'fs')}
            if eff in ('time', 'random', 'env', 'locale'):
                for a in (args[0] if args and name.split('.')[-1] == 'shuffle' else ()):
                    o = st.heap.get(a[1]) if a[0] == 'R' else None
                    if o is not None:
                        self.mutate(st, a[1], node, 'shuffle')
                        st.put(a[1], o.but(items=(), rest=join_all([o.rest] + list(o.items)), labels=o.labels | {'random'}))
                return [(st, V(top(self.svn(node), labs)))]
            self.raise_(st, 'OSError', 'io', node)
            return [(st, V(top(self.svn(node), labs)))]
        if name.split('.')[0] in ('typing', 'collections', 'itertools', 'functools', 'operator', 'contextlib', 'abc',
                                  'enum', 'dataclasses', 'copy', 'string', 'math', 'unicodedata', 'warnings', 'types'):
            return [(st, V(top(self.svn(node), labs)))]
        # unknown library function: may raise, may return anything, does not touch arguments
        self.raise_(st, 'Exception', 'ext:' + name, node)
        return [(st, V(('XI', name, self.svn(node), labs)))]

    def mk_exc(self, st, name, args, kwargs, node):
        a = self.alloc(st, node, Obj('inst', attrs={'args': V(('U', tuple(args)))}, meta=(('cls', name),)), 'exc')
        return [(st, V(a))]

    def ext_effect(self, name):
        top_ = name.split('.')[0]
        if name in ('os.getenv', 'os.environ.get', 'os.environ.copy', 'os.environ.setdefault', 'os.environ.pop', 'os.getcwd',
                    'os.getpid', 'os.getlogin', 'os.uname', 'socket.gethostname', 'platform.system', 'platform.node',
                    'getpass.getuser', 'os.cpu_count'):
            return 'env'
        if name.startswith('time.') or name.startswith('datetime.'):
            return 'time'
        if top_ in ('random', 'secrets', 'uuid') or name in ('os.urandom',):
            return 'random'
        if top_ == 'locale':
            return 'locale'
        if name in ('os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob'):
            return 'listdir'
        if name in ('os.remove', 'os.rmdir', 'os.removedirs', 'shutil.rmtree'):
            return 'delete'
        if name in ('os.rename', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.chmod', 'os.chown', 'os.link', 'os.symlink',
                    'os.truncate', 'os.utime', 'os.chdir', 'os.umask', 'os.mkfifo', 'shutil.copy', 'shutil.copyfile',
                    'shutil.move', 'shutil.copytree', 'shutil.copy2', 'os.write', 'os.ftruncate',
                    'os.putenv', 'os.unsetenv'):
            return 'write'
        if name in ('requests.get', 'requests.post', 'requests.put', 'requests.head', 'requests.delete', 'requests.patch',
                    'requests.options', 'requests.request', 'requests.Session', 'requests.session', 'urllib.request.urlopen',
                    'urllib.request.urlretrieve', 'socket.socket', 'socket.create_connection', 'socket.gethostbyname',
                    'socket.getaddrinfo', 'http.client.HTTPConnection', 'http.client.HTTPSConnection',
                    'urllib3.PoolManager', 'urllib3.request') or top_ in ('ftplib', 'smtplib'):
            return 'net'
        if top_ in ('subprocess',) or name in ('os.system', 'os.popen', 'os.spawnl', 'os.spawnv', 'os.execv', 'os.execl',
                                               'os.fork', 'os.kill', 'os.execvp'):
            return 'proc'
        if name in ('sys.exit', 'os._exit', 'os.abort', 'signal.signal', 'signal.alarm', 'sys.setrecursionlimit',
                    'gc.disable', 'atexit.register', 'resource.setrlimit', 'exit', 'quit'):
            return 'process'
        if name in ('print', 'sys.stdout.write', 'sys.stderr.write', 'input'):
            return 'stdio'
        if top_ in ('pickle', 'marshal', 'shelve', 'sqlite3', 'dbm'):
            return 'write'
        if name in ('os.stat', 'os.access', 'os.path.getsize', 'os.path.getmtime', 'os.read', 'os.lstat', 'os.fstat'):
            return 'fsread'
        return None

    # -- builtins --------------------------------------------------------------------------------------
    def x_len(self, st, args, kwargs, node):
        out = EMPTY
        for a in args[0]:
            if a[0] == 'C' and a[1] in ('str', 'bytes'):
                out = join(out, cst(len(a[2])))
            elif a[0] == 'U':
                out = join(out, cst(len(a[1])))
            elif a[0] == 'S' and self.words and words.vec(a) is not None:
                out = join(out, V(words.unvec([len(x) for x in words.vec(a)], {})))
            elif a[0] == 'S':
                out = join(out, V(('N', self.mkvn(node, 'len', a), labels_of_atom(a))))
            elif a[0] == 'R':
                o = st.heap.get(a[1])
                if o is None or o.kind in ('any', 'inst'):
                    out = join(out, V(('N', None, NOL)))
                elif o.kind in ('list', 'set', 'dict'):
                    c = o.cnt
                    if o.kind == 'dict':
                        c = (len(o.ent), ()) if not o.restk and all(m for _v, m in o.ent.values()) else None
                    if c is not None and not c[1]:
                        out = join(out, cst(c[0]))
                    elif c is not None:
                        vn = self.mkvn(node, 'len', ('lin', c))
                        self.idxlin[vn] = c
                        out = join(out, V(('N', vn, NOL)))
                    else:
                        out = join(out, V(('N', self.mkvn(node, 'len', ('s', self.nid(node), self.ctx)), NOL)))
                else:
                    self.raise_(st, 'TypeError', 'len', node)
            elif a[0] == 'C':
                self.raise_(st, 'TypeError', 'none' if a[2] is None else 'len', node)
            elif a[0] == 'T':
                vn = self.mkvn(node, 'len', a)
                self.idxlin[vn] = (0, ((('len', a), 1),))
                out = join(out, V(('N', vn, a[2])))
            elif a[0] in ('N', 'B', 'MT', 'RX', 'F'):
                self.raise_(st, 'TypeError', 'len', node)
            else:
                out = join(out, V(('N', None, NOL)))
        return [(st, out)] if out else []

    def x_range(self, st, args, kwargs, node):
        if all(is_const(v) and isinstance(getc(v), int) for v in args):
            try:
                r = range(*[getc(v) for v in args])
            except ValueError:
                self.raise_(st, 'ValueError', 'range', node)
                return []
            if len(r) <= 60:
                return [(st, V(self.new_list(st, node, items=[cst(i) for i in r])))]
            return [(st, V(self.new_list(st, node, rest=V(('N', ('idx', 's', self.nid(node), self.ctx), NOL)), cnt=(len(r), ()))))]
        for v in args:
            for x in v:
                if x[0] == 'C' and x[2] is None:
                    self.raise_(st, 'TypeError', 'none', node)
        cnt = None
        stop = args[0] if len(args) == 1 else (args[1] if len(args) == 2 and is_const(args[0]) and getc(args[0]) == 0 else None)
        if stop is not None:
            x = single(stop)
            if x is not None and x[0] == 'N':
                cnt = self.idxlin.get(x[1])
                if cnt is None and x[1] is not None:
                    cnt = (0, ((x, 1),))
        a = self.new_list(st, node, rest=V(('N', ('idx', 's', self.nid(node), self.ctx), NOL)), cnt=cnt,
                          meta=(('range', True),))
        return [(st, V(a))]

    def x_enumerate(self, st, args, kwargs, node):
        res = []
        start = args[1] if len(args) > 1 else kwargs.get('start', cst(0))
        for s, sp in self.specs(st, args[0], node):
            if not sp['rest'] and is_const(start):
                items = [V(('U', (cst(getc(start) + i), v))) for i, v in enumerate(sp['items'])]
                rest = EMPTY
            else:
                items = []
                rest = V(('U', (V(('N', ('idx', 's', self.nid(node), self.ctx), NOL)), self.joined(sp))))
            res.append((s, V(self.new_list(s, node, items=items, rest=rest, cnt=sp['cnt'],
                                           labels=sp['labels'] & self.flow_labels))))
        return res

    def x_zip(self, st, args, kwargs, node):
        cur = [(st, [])]
        for v in args:
            nxt = []
            for s, sps in cur:
                for t, sp in self.specs(s, v, node):
                    nxt.append((t, sps + [sp]))
            cur = nxt
        res = []
        for s, sps in cur:
            labels = NOL
            for sp in sps:
                labels |= sp['labels'] & self.flow_labels
            if sps and all(not sp['rest'] for sp in sps):
                items = [V(('U', tuple(vs))) for vs in zip(*[sp['items'] for sp in sps])]
                res.append((s, V(self.new_list(s, node, items=items, labels=labels))))
            else:
                cn = {sp['cnt'] for sp in sps}
                cnt = next(iter(cn)) if len(cn) == 1 else None
                el = [self.joined(sp) for sp in sps]
                if all(el) and el:
                    res.append((s, V(self.new_list(s, node, rest=V(('U', tuple(el))), cnt=cnt, labels=labels))))
                else:
                    res.append((s, V(self.new_list(s, node))))
        return res

    x_itertools_zip_longest = x_zip

    def x_itertools_chain(self, st, args, kwargs, node):
        cur = [(st, [])]
        for v in args:
            nxt = []
            for s, sps in cur:
                for t, sp in self.specs(s, v, node):
                    nxt.append((t, sps + [sp]))
            cur = nxt
        res = []
        for s, sps in cur:
            labels = NOL
            cnt = (0, ())
            for sp in sps:
                labels |= sp['labels'] & self.flow_labels
                cnt = lin_add(cnt, sp['cnt'])
            if all(not sp['rest'] for sp in sps):
                res.append((s, V(self.new_list(s, node, items=[x for sp in sps for x in sp['items']], labels=labels))))
            else:
                res.append((s, V(self.new_list(s, node, rest=join_all([self.joined(sp) for sp in sps]), cnt=cnt, labels=labels))))
        return res

    def x_itertools_chain_from_iterable(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            out = EMPTY
            for v in list(sp['items']) + [sp['rest']]:
                for a in v:
                    for t, sq in self.spec_of(s, a, node)[:1]:
                        s = t
                        out = join(out, self.joined(sq))
            res.append((s, V(self.new_list(s, node, rest=out, cnt=None))))
        return res

    def x_itertools_islice(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            res.append((s, V(self.new_list(s, node, rest=self.joined(sp), cnt=None, labels=sp['labels'] & self.flow_labels))))
        return res

    def x_reversed(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            if not sp['rest']:
                res.append((s, V(self.new_list(s, node, items=list(reversed(sp['items'])),
                                               labels=sp['labels'] & self.flow_labels))))
            else:
                res.append((s, V(self.new_list(s, node, rest=self.joined(sp), cnt=sp['cnt'],
                                               labels=sp['labels'] & self.flow_labels))))
        return res

    def x_sorted(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            if not sp['rest']:
                r = self.sort_known(s, list(sp['items']), kwargs, node)
                if r is not None:
                    res.append((r[0], V(self.new_list(r[0], node, items=r[1], labels=(sp['labels'] & self.flow_labels) - {'setorder'}))))
                    continue
            j = self.joined(sp)
            labels = sp['labels'] & self.flow_labels
            if 'key' in kwargs and kwargs['key'] not in (NONE, V(('X', 'str')), V(('X', 'repr'))):
                j = self.key_labels(s, kwargs['key'], j)
                s = self.call_key(s, kwargs['key'], j, node)
            else:
                j = self.relabel(j, drop='setorder')
                labels = labels - {'setorder'}
            if len(sp['items']) == 1 and not sp['rest']:
                res.append((s, V(self.new_list(s, node, items=[j], labels=labels))))
            else:
                res.append((s, V(self.new_list(s, node, rest=j, cnt=sp['cnt'], labels=labels))))
        return res

    def x_list(self, st, args, kwargs, node):
        if not args:
            return [(st, V(self.new_list(st, node)))]
        res = []
        for s, sp in self.specs(st, args[0], node):
            res.append((s, V(self.new_list(s, node, items=sp['items'], rest=sp['rest'], cnt=sp['cnt'],
                                           labels=sp['labels'] & self.flow_labels))))
        return res

    x_iter = x_list
    x_collections_deque = x_list

    def x_tuple(self, st, args, kwargs, node):
        if not args:
            return [(st, V(('U', ())))]
        res = []
        for s, sp in self.specs(st, args[0], node):
            if not sp['rest']:
                res.append((s, V(('U', tuple(sp['items'])))))
            else:
                res.append((s, V(self.new_list(s, node, items=sp['items'], rest=sp['rest'], cnt=sp['cnt'],
                                               labels=sp['labels'] & self.flow_labels, meta=(('tuple', True),)))))
        return res

    def x_set(self, st, args, kwargs, node):
        if not args:
            return [(st, V(self.new_set(st, node)))]
        res = []
        for s, sp in self.specs(st, args[0], node):
            a = self.new_set(s, node, self.relabel(self.joined(sp), drop='setorder'))
            self.must_add(s, a[1], sp['items'], self.must_of(s, args[0]))
            res.append((s, V(a)))
        return res

    def must_of(self, st, v):
        a = single(v)
        o = st.heap.get(a[1]) if a is not None and a[0] == 'R' else None
        return o.m('must', EMPTY) if o is not None and o.kind == 'set' else EMPTY

    x_frozenset = x_set

    def x_dict(self, st, args, kwargs, node):
        a = self.new_dict(st, node)
        if args:
            m = []
            for x in args[0]:
                s = st.fork() if len(args[0]) > 1 else st
                if x[0] == 'R' and x[1] in s.heap and s.heap[x[1]].kind == 'gen':
                    for t, sp in self.spec_of(s, x, node):
                        l = self.new_list(t, node, items=sp['items'], rest=sp['rest'], tag='tmp')
                        self.dict_merge(t, a, l, node)
                        m.append(t)
                    continue
                self.dict_merge(s, a, x, node)
                m.append(s)
            sts = self.merge(m)
        else:
            sts = [st]
        res = []
        for s in sts:
            for k, v in kwargs.items():
                if k in ('*', '**'):
                    o = s.heap[a[1]]
                    s.put(a[1], o.but(rest=join(o.rest, v), restk=join(o.restk, V(S(self.svn(node, 'kk'))))))
                else:
                    self.dict_set(s, a[1], cst(k), v, node, quiet=True)
            res.append((s, V(a)))
        return res

    x_collections_OrderedDict = x_dict
    x_collections_Counter = x_dict

    def x_collections_defaultdict(self, st, args, kwargs, node):
        f = single(args[0]) if args else None
        a = self.new_dict(st, node, meta=(('factory', f if f and f[0] == 'X' else ('X', '?')),))
        for v in args[1:2]:
            for x in v:
                self.dict_merge(st, a, x, node)
        return [(st, V(a))]

    def x_dict_fromkeys(self, st, args, kwargs, node):
        res = []
        d = args[1] if len(args) > 1 else NONE
        for s, sp in self.specs(st, args[0], node):
            a = self.new_dict(s, node, labels=sp['labels'] & frozenset(['setorder']))
            for v in sp['items']:
                self.dict_set(s, a[1], v, d, node, quiet=True)
            if sp['rest']:
                o = s.heap[a[1]]
                s.put(a[1], o.but(rest=join(o.rest, d), restk=join(o.restk, sp['rest'])))
            res.append((s, V(a)))
        return res

    def x_str(self, st, args, kwargs, node):
        if not args:
            return [(st, cst(''))]
        if any(a[0] == 'XI' and a[1] == 'bytes' for a in args[0]) and (len(args) > 1 or 'encoding' in kwargs):
            if not (len(args) > 2 or 'errors' in kwargs):
                self.raise_(st, 'UnicodeDecodeError', 'decode', node)
        return [(st, self.to_str(st, args[0], node))]

    def x_repr(self, st, args, kwargs, node):
        return [(st, self.str_fn(node, 'repr', self.to_str(st, args[0], node), []))]

    def x_format(self, st, args, kwargs, node):
        return [(st, self.str_fn(node, 'format', self.to_str(st, args[0], node), args[1:]))]

    def x_bool(self, st, args, kwargs, node):
        if not args:
            return [(st, FALSE)]
        out = EMPTY
        for a in args[0]:
            t = self.truth1(a, st)
            if t is None:
                out = join(out, V(('B', self.vnargs(node, 'bool', a), labels_of_atom(a))) if a[0] != 'B' else V(a))
            else:
                out = join(out, cst(t))
        return [(st, out)]

    def int_safe(self, st, a):
        """reason why int(a) cannot fail ('ok'), or the kind of risk"""
        if a[0] != 'S' or len(a[1]) != 1:
            # concatenation of digit groups
            return 'int?'
        vn = a[1][0][1]
        for m in ('isdecimal', 'isdigit', 'isnumeric'):
            if ('t', ('B', self.mkvn(None, 'm:' + m, a), labels_of_atom(a))) in st.facts:
                return {'isdecimal': 'intlen', 'isdigit': 'int:isdigit', 'isnumeric': 'int:isdigit'}[m]
        s = self.vstruct(vn)
        if s and s[0] == 'grp':
            R = rxm.REG.get(s[1][1])
            g = s[2][2]
            if R is not None and R.known and R.digits_only(g):
                t = R.group_tree(g)
                w = t.getwidth() if t is not None else (0, None)
                if w[0] == 0:
                    return 'int?'
                if w[1] is not None and w[1] < 4000:
                    return 'ok'
                return 'intlen'
        if s and s[0] == 'str' and s[1][0] == 'N':
            return 'ok'
        tested = False
        prefix = []
        for f in st.facts:
            if f[0] == 't' and f[1] != a and self.about(f[1], a):
                tested = True
                prefix.append(f[1][0] == 'MT' and f[1][3] == a and rxm.open_end(rxm.REG[f[1][1]]))
                if f[1][0] == 'MT' and f[1][3] == a:
                    R = rxm.REG[f[1][1]]
                    if R.known and not R.holes and rxm.all_digits_to_end(R):
                        w = R.tree.getwidth()
                        return 'int?' if w[0] == 0 else 'ok' if w[1] < 4000 else 'intlen'
        if prefix and all(prefix) and isinstance(vn, tuple) and vn and vn[0] == 'param':
            return 'int:free'
        if tested:
            return 'int?'
        if s and s[0] == 'grp':
            R = rxm.REG.get(s[1][1])
            t = R.group_tree(s[2][2]) if R is not None and R.known and not R.holes and s[2][0] == 'C' else None
            xs = rxm.samples(t) if t is not None else None
            if xs and not all(_inty(x) for x in xs):
                return 'int:grp'
            return 'int?'
        if s is None and isinstance(vn, tuple) and vn and vn[0] == 'param':
            return 'int:free'
        return 'int?'

    def x_int(self, st, args, kwargs, node):
        if not args:
            return [(st, cst(0))]
        out = EMPTY
        for a in args[0]:
            if a[0] == 'C':
                try:
                    out = join(out, cst(int(a[2])))
                except ValueError:
                    self.raise_(st, 'ValueError', 'int!', node)
                except TypeError:
                    self.raise_(st, 'TypeError', self.none_kind(st, args[0]), node)
            elif a[0] == 'S':
                k = self.int_safe(st, a)
                if k != 'ok':
                    self.raise_(st, 'ValueError', k, node)
                out = join(out, V(('N', self.mkvn(node, 'int', a), labels_of_atom(a))))
            elif a[0] == 'N':
                out = join(out, V(a))
            elif a[0] == 'B':
                out = join(out, V(('N', self.mkvn(node, 'int', a), a[2])))
            elif a[0] in ('T', 'XI'):
                self.raise_(st, 'ValueError', 'int?', node)
                self.maybe(st, 'TypeError', 'int?', node)
                out = join(out, V(('N', self.mkvn(node, 'int', a), labels_of_atom(a))))
            else:
                self.raise_(st, 'TypeError', 'int', node)
        return [(st, out)] if out else []

    def x_float(self, st, args, kwargs, node):
        out = EMPTY
        for a in args[0] if args else cst(0.0):
            if a[0] == 'C':
                try:
                    out = join(out, cst(float(a[2])))
                except ValueError:
                    self.raise_(st, 'ValueError', 'int!', node)
                except TypeError:
                    self.raise_(st, 'TypeError', 'none', node)
            else:
                if a[0] not in ('N', 'B'):
                    self.raise_(st, 'ValueError', 'int?', node)
                    if a[0] not in ('S',):
                        self.raise_(st, 'TypeError', 'float?', node)
                out = join(out, V(('N', self.vnargs(node, 'float', a), labels_of_atom(a))))
        return [(st, out)] if out else []

    def x_ord(self, st, args, kwargs, node):
        return [(st, V(('N', self.svn(node), labels_of(args[0]))))]

    def x_chr(self, st, args, kwargs, node):
        if args and is_const(args[0]) and isinstance(getc(args[0]), int) and 0 <= getc(args[0]) < 0x110000:
            return [(st, cst(chr(getc(args[0]))))]
        return [(st, V(S(self.svn(node), labels_of(args[0]))))]

    def x_abs(self, st, args, kwargs, node):
        return [(st, V(('N', self.svn(node), labels_of(args[0]))))]

    x_round = x_abs
    def x_sum(self, st, args, kwargs, node):
        if len(args) == 1 and not kwargs:
            res = []
            for s, sp in self.specs(st, args[0], node):
                vs = sp['items']
                if not sp['rest'] and all(is_const(v) and isinstance(getc(v), (int, float)) for v in vs):
                    res.append((s, cst(sum(getc(v) for v in vs))))
                else:
                    res.append((s, V(('N', self.svn(node), self.arg_labels(s, args, kwargs) - {'setorder'}))))
            return res
        return [(st, V(('N', self.svn(node), self.arg_labels(st, args, kwargs) - {'setorder'})))]

    def x_min(self, st, args, kwargs, node):
        if len(args) == 1:
            res = []
            for s, sp in self.specs(st, args[0], node):
                j = self.joined(sp)
                if 'key' in kwargs:
                    s = self.call_key(s, kwargs['key'], j, node)
                else:
                    j = self.relabel(j, drop='setorder')
                if 'default' in kwargs:
                    j = join(j, kwargs['default'])
                elif not sp['items']:
                    self.maybe(s, 'ValueError', 'minempty', node)
                if j:
                    res.append((s, j))
                else:
                    self.raise_(s, 'ValueError', 'minempty', node)
            return res
        if all(is_const(v) for v in args):
            try:
                return [(st, cst(min(getc(v) for v in args)))]
            except TypeError:
                self.raise_(st, 'TypeError', 'none', node)
                return []
        return [(st, V(('N', self.svn(node), self.arg_labels(st, args, kwargs))) if all(is_num(x) for v in args for x in v)
                 else join_all(args))]

    x_max = x_min

    def x_any(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            if not sp['items'] and not sp['rest']:
                res.append((s, FALSE))
                continue
            ts = {self.truth1(a, s) for v in list(sp['items']) + [sp['rest']] for a in v}
            if ts == {False}:
                res.append((s, FALSE))
            elif any({self.truth1(a, s) for a in v} == {True} for v in sp['items']):
                res.append((s, TRUE))
            else:
                res.append((s, V(('B', self.svn(node), NOL))))
        return res

    def x_all(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            ts = {self.truth1(a, s) for v in list(sp['items']) + [sp['rest']] for a in v}
            if ts <= {True}:
                res.append((s, TRUE))
            elif any({self.truth1(a, s) for a in v} == {False} for v in sp['items']):
                res.append((s, FALSE))
            else:
                res.append((s, V(('B', self.svn(node), NOL))))
        return res

    def x_isinstance(self, st, args, kwargs, node):
        T, F = self.split_isinstance(node, st) if isinstance(node, ast.Call) and len(node.args) == 2 else ([], [])
        if not T and not F:
            return [(st, V(('B', self.svn(node), NOL)))]
        return [(s, TRUE) for s, _ in T] + [(s, FALSE) for s, _ in F]

    def x_issubclass(self, st, args, kwargs, node):
        return [(st, V(('B', self.svn(node), NOL)))]

    x_callable = x_issubclass

    def x_hasattr(self, st, args, kwargs, node):
        nm = getc(args[1]) if is_const(args[1]) else None
        out = EMPTY
        for a in args[0]:
            if a[0] in ('T', 'XI', 'X', 'M') or nm is None:
                out = join(out, V(('B', self.vnargs(node, 'hasattr', a, nm or '?'), NOL)))
            else:
                t = self.pytype(a, st)
                if t in ('str', 'list', 'dict', 'set', 'tuple', 'int', 'float', 'bool', 'bytes'):
                    out = join(out, cst(hasattr(getattr(builtins, t), nm)))
                elif t == 'NoneType':
                    out = join(out, cst(hasattr(None, nm)))
                elif t == 'function':
                    out = join(out, cst(nm in ('__call__', '__name__')))
                else:
                    out = join(out, V(('B', self.svn(node), NOL)))
        return [(st, out)]

    def x_getattr(self, st, args, kwargs, node):
        if len(args) >= 2 and is_const(args[1]) and isinstance(getc(args[1]), str):
            out = EMPTY
            for a in args[0]:
                v = self.getattr1(st, a, getc(args[1]), node)
                if v:
                    out = join(out, v)
            if len(args) > 2:
                out = join(out, args[2])
            return [(st, out)] if out else []
        self.top_site(node, 'dynamic getattr')
        return [(st, V(top(self.svn(node), self.arg_labels(st, args, kwargs))))]

    def x_setattr(self, st, args, kwargs, node):
        for a in args[0]:
            if a[0] == 'R':
                self.mutate(st, a[1], node, 'attr')
            elif a[0] in ('M', 'K', 'F'):
                self.emit('global_store', st, node, name='?', mod=str(a[1]), value=args[2])
        return [(st, NONE)]

    def x_type(self, st, args, kwargs, node):
        out = EMPTY
        for a in args[0]:
            t = self.pytype(a, st)
            if t and t in builtins.__dict__:
                out = join(out, V(('X', t)))
            else:
                out = join(out, V(top(self.svn(node))))
        return [(st, out)]

    def x_id(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='id', target=args[0])
        return [(st, V(('N', self.svn(node), frozenset(['id']))))]

    def x_hash(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='hash', target=args[0])
        labs = frozenset(['hash']) if not all(is_num(a) for a in args[0]) else NOL
        return [(st, V(('N', self.svn(node), labs)))]

    def x_print(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='stdio', target=EMPTY)
        return [(st, NONE)]

    def x_next(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            if sp['items']:
                v = sp['items'][0]
                res.append((s, v))
                continue
            j = sp['rest']
            if len(args) > 1:
                j = join(j, args[1])
            else:
                self.raise_(s, 'StopIteration', 'next', node)
            if j:
                res.append((s, j))
        return res

    def x_map(self, st, args, kwargs, node):
        # analysed like a comprehension: the function is called for every element
        res = []
        for s, sp in self.specs(st, args[1], node):
            acc = []
            if len(args) > 2:
                for v in args[2:]:
                    for t, sq in self.specs(s, v, node)[:1]:
                        s = t
                        acc.append(self.joined(sq))
            a = self.new_list(s, node)
            cur = [s]
            fid = self.stack[-1][1]
            name = '@c%d' % self.nid(node)
            s.setvar(fid, name, V(a))
            from .interp import Out
            out = Out()
            tgt = self._map_target(node)

            def body(sts):
                o = Out()
                for t in sts:
                    ev = t.frames[fid]['@m%d' % self.nid(node)]
                    for f in args[0]:
                        u = t.fork() if len(args[0]) > 1 else t
                        for w, v in self.call(u, f, [ev] + acc, {}, node):
                            (ca,) = w.frames[fid][name]
                            self.list_append(w, ca, v, node, quiet=True)
                            o.norm.append(w)
                return o
            fi = self.stack[-1][0]
            self.loop(node, tgt, sp, s, body, [], out)
            for t in self.merge(out.norm):
                v = t.frames[fid][name]
                f = dict(t.frames[fid])
                f.pop(name, None)
                f.pop('@m%d' % self.nid(node), None)
                t.wframes()[fid] = f
                res.append((t, v))
        return res

    def _map_target(self, node):
        k = ('mt', self.nid(node))
        r = self.compat.get(k)
        if r is None:
            r = ast.Name(id='@m%d' % self.nid(node), ctx=ast.Store())
            self.compat[k] = r
        return r

    def filtered(self, st, f, sp, node):
        """elements for which the function is certainly true; None where it is not decided"""
        if not self.words or sp['rest'] or len(f) != 1:
            return None
        (f,) = f
        keep = []
        for x in sp['items']:
            if f == NONE_A:
                t, v = st, x
            else:
                r = self.call(st, f, [x], {}, node)
                if len(r) != 1:
                    return None
                (t, v), = r
                st = t
            b = {self.truth1(a, t) for a in v}
            if len(b) != 1 or None in b:
                return None
            if b == {True}:
                keep.append(x)
        return st, keep

    def x_filter(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[1], node):
            n = len(self.excs)
            u = self.filtered(s.fork(), args[0], sp, node)
            if u is not None:
                res.append((u[0], V(self.new_list(u[0], node, u[1], labels=sp['labels'] & self.flow_labels))))
                continue
            del self.excs[n:]
            j = self.joined(sp)
            for f in args[0]:
                if f == NONE_A:
                    j = frozenset(a for a in j if self.truth1(a, s) is not False)
                else:
                    s = self.call_key(s, V(f), j, node)
            res.append((s, V(self.new_list(s, node, rest=j, cnt=None, labels=sp['labels'] & self.flow_labels))))
        return res

    def x_eval(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='eval', target=args[0] if args else EMPTY)
        return [(st, V(top(self.svn(node), self.arg_labels(st, args, kwargs))))]

    x_exec = x_eval
    x___import__ = x_eval
    x_importlib_import_module = x_eval

    def x_globals(self, st, args, kwargs, node):
        self.top_site(node, 'globals()')
        return [(st, V(top(self.svn(node))))]

    def x_bytes(self, st, args, kwargs, node):
        return [(st, V(('XI', 'bytes', self.svn(node), self.arg_labels(st, args, kwargs))))]

    def x_bytearray(self, st, args, kwargs, node):
        return self.x_bytes(st, args, kwargs, node)

    def x_object(self, st, args, kwargs, node):
        return [(st, V(self.alloc(st, node, Obj('inst', attrs={}), 'object')))]

    def x_super(self, st, args, kwargs, node):
        return [(st, V(('X', 'super')))]

    def x_super___init__(self, st, args, kwargs, node):
        return [(st, NONE)]

    def x_typing_cast(self, st, args, kwargs, node):
        return [(st, args[1])]

    def x_functools_partial(self, st, args, kwargs, node):
        at = {'func': args[0]}
        for i, v in enumerate(args[1:]):
            at[str(i)] = v
        for k, v in kwargs.items():
            at['kw:' + k] = v
        a = self.alloc(st, node, Obj('inst', attrs=at, meta=(('partial', len(args)),)), 'partial')
        return [(st, V(a))]

    def x_functools_reduce(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[1], node):
            acc = args[2] if len(args) > 2 else self.joined(sp)
            for _ in range(3):
                for f in args[0]:
                    rs = self.call(s, f, [acc, self.joined(sp)], {}, node)
                    for t, v in rs:
                        s = t
                        acc = join(acc, v)
            res.append((s, acc))
        return res

    def x_copy_copy(self, st, args, kwargs, node):
        return [(st, self.copy_val(st, args[0], node, False, 0))]

    def x_copy_deepcopy(self, st, args, kwargs, node):
        return [(st, self.copy_val(st, args[0], node, True, 0))]

    def copy_val(self, st, v, node, deep, depth):
        out = set()
        for a in v:
            if a[0] == 'U' and deep:
                out.add(('U', tuple(self.copy_val(st, x, node, deep, depth + 1) for x in a[1])))
            elif a[0] == 'R' and a[1] in st.heap and depth < 8:
                o = st.heap[a[1]]
                if o.kind in ('list', 'dict', 'set', 'inst'):
                    labels = self.carry(o.labels)
                    o2 = o.but(labels=labels, site=None)
                    if deep:
                        if o.kind == 'list':
                            o2 = o2.but(items=tuple(self.copy_val(st, x, node, True, depth + 1) for x in o.items),
                                        rest=self.copy_val(st, o.rest, node, True, depth + 1))
                        elif o.kind == 'dict':
                            o2 = o2.but(ent={k: (self.copy_val(st, x, node, True, depth + 1), m) for k, (x, m) in o.ent.items()},
                                        rest=self.copy_val(st, o.rest, node, True, depth + 1))
                        elif o.kind == 'inst':
                            o2 = o2.but(attrs={k: self.copy_val(st, x, node, True, depth + 1) for k, x in o.attrs.items()})
                    out.add(self.alloc(st, node, o2, ('cp', a[1])))
                else:
                    out.add(a)
            else:
                out.add(a)
        return frozenset(out)

    # -- re module -------------------------------------------------------------------------------------------
    def x_re(self, st, fn, args, kwargs, node):
        if fn == 'compile':
            fl = args[1] if len(args) > 1 else kwargs.get('flags', cst(0))
            v = self.mk_regex(st, args[0] if args else kwargs.get('pattern', EMPTY), fl, node)
            return [(st, v)] if v else []
        if fn == 'escape':
            out = EMPTY
            for a in args[0]:
                if a[0] == 'C' and a[1] == 'str':
                    out = join(out, cst(re.escape(a[2])))
                elif a[0] == 'C' and a[2] is None:
                    self.raise_(st, 'TypeError', 'none', node)
                elif self.words and words.wordy(a):
                    x = words.unvec([re.escape(y) for y in words.vec(a)], words.labmap(a))
                    out = join(out, V(x if x is not None else S(self.vnargs(node, 'esc', a), labels_of_atom(a) | {'esc'})))
                else:
                    out = join(out, V(S(self.vnargs(node, 'esc', a), labels_of_atom(a) | {'esc'})))
            return [(st, out)] if out else []
        if fn in ('match', 'search', 'fullmatch', 'finditer', 'findall', 'split'):
            fl = args[2] if len(args) > 2 else kwargs.get('flags', cst(0))
            pv = self.mk_regex(st, args[0] if args else kwargs.get('pattern', EMPTY), fl, node)
            res = []
            for r in pv:
                s = st.fork() if len(pv) > 1 else st
                res += self.m_regex(s, r, fn, [args[1] if len(args) > 1 else kwargs.get('string', EMPTY)], {}, node)
            return res
        if fn in ('sub', 'subn'):
            fl = args[4] if len(args) > 4 else kwargs.get('flags', cst(0))
            pv = self.mk_regex(st, args[0] if args else kwargs.get('pattern', EMPTY), fl, node)
            res = []
            for r in pv:
                s = st.fork() if len(pv) > 1 else st
                res += self.re_sub(s, r, args[1] if len(args) > 1 else kwargs.get('repl', EMPTY),
                                   args[2] if len(args) > 2 else kwargs.get('string', EMPTY), fn, node,
                                   args[3] if len(args) > 3 else kwargs.get('count'))
            return res
        return [(st, V(top(self.svn(node))))]

    # -- files, processes, network -------------------------------------------------------------------------------
    def content_labels(self, st, pv):
        labs = self.deep_labels(st, pv)
        out = set(x for x in labs if x in ('env', 'time', 'random'))
        out.add('kb' if 'kb' in labs else 'doc')
        out.update(x for x in labs if x in self.HIST)
        for a in pv:
            if a[0] == 'C' and a[1] == 'str' and a[2][1:3] in self.HIST and a[2][:1] == '/':
                out.add(a[2][1:3])
                out.add('kb')
                out.discard('doc')
            if self.path_label:
                x = self.path_label(a)
                if x:
                    out.add(x)
        return frozenset(out)

    def x_open(self, st, args, kwargs, node):
        mode = args[1] if len(args) > 1 else kwargs.get('mode', cst('r'))
        m = getc(mode) if is_const(mode) else '?'
        enc = args[3] if len(args) > 3 else kwargs.get('encoding')
        err = args[4] if len(args) > 4 else kwargs.get('errors')
        write = any(c in str(m) for c in 'wax+?')
        self.emit('effect', st, node, eff='open', target=args[0] if args else EMPTY, mode=m)
        if self.env.get('isfile') is False and self.env_path(args) and not any(c in str(m) for c in 'wax'):
            self.raise_(st, 'IsADirectoryError' if self.env.get('isdir') else 'FileNotFoundError', 'io', node)
            return []
        self.raise_(st, 'OSError', 'io', node)
        text = 'b' not in str(m)
        labs = set(self.content_labels(st, args[0] if args else EMPTY))
        if text and (enc is None or enc == NONE):
            labs.add('locale')
        meta = [('mode', m), ('text', text)]
        if err is not None and err != NONE and not (is_const(err) and getc(err) == 'strict'):
            meta.append(('errors', 'x'))
        if enc is not None and is_const(enc) and str(getc(enc)).lower().replace('_', '-') in ('latin-1', 'iso-8859-1', 'latin1'):
            meta.append(('errors', 'x'))
        if self.file_lines and args and is_const(args[0]) and getc(args[0]) in self.file_lines and text and not write:
            meta.append(('lines', tuple(self.file_lines[getc(args[0])])))
        a = self.new_res(st, node, 'file', meta=meta, labels=frozenset(labs))
        return [(st, V(a))]

    def x_codecs_open(self, st, args, kwargs, node):
        kw = dict(kwargs)
        if len(args) > 2:
            kw['encoding'] = args[2]
        return self.x_open(st, args[:2], kw, node)

    def x_os_fdopen(self, st, args, kwargs, node):
        a = self.x_open(st, [V(S(('fdpath',)))] + list(args[1:]), kwargs, node)
        # the descriptor is owned by the file object from here on
        for s, v in a:
            for x in args[0]:
                if x[0] == 'R' and x[1] in s.heap and s.heap[x[1]].kind == 'res':
                    self.close_res(s, x[1], node)
        return a

    def x_mmap_mmap(self, st, args, kwargs, node):
        self.raise_(st, 'ValueError', 'mmapempty', node)
        self.raise_(st, 'OSError', 'io', node)
        a = self.new_res(st, node, 'mmap', labels=frozenset(['doc']))
        return [(st, V(a))]

    def x_tempfile_mkstemp(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='mktemp', target=EMPTY, kwargs=kwargs)
        self.raise_(st, 'OSError', 'io', node)
        fd = self.new_res(st, node, 'fd')
        tf = self.new_res(st, node, 'tmpfile', tag='tmpfile')
        return [(st, V(('U', (V(fd), V(S(('tmp', tf[1]), frozenset(['tmp'])))))))]

    def x_tempfile_mkdtemp(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='mktemp', target=EMPTY)
        self.raise_(st, 'OSError', 'io', node)
        tf = self.new_res(st, node, 'tmpfile', tag='tmpdir', meta=[('dir', True)])
        return [(st, V(S(('tmp', tf[1]), frozenset(['tmp']))))]

    def x_tempfile_NamedTemporaryFile(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='mktemp', target=EMPTY)
        self.raise_(st, 'OSError', 'io', node)
        d = kwargs.get('delete', cst(True))
        delete = is_const(d) and getc(d)
        tf = self.new_res(st, node, 'tmpfile', tag='tmpfile')
        m = args[0] if args else kwargs.get('mode', cst('w+b'))
        text = is_const(m) and 'b' not in str(getc(m))
        f = self.new_res(st, node, 'file', attrs={'name': V(S(('tmp', tf[1]), frozenset(['tmp'])))},
                         meta=[('text', text), ('mode', 'w')] + ([('tmpfile', tf[1])] if delete else []),
                         labels=frozenset(['doc']))
        return [(st, V(f))]

    def x_tempfile_TemporaryFile(self, st, args, kwargs, node):
        self.raise_(st, 'OSError', 'io', node)
        return [(st, V(self.new_res(st, node, 'file', meta=[('text', False)], labels=frozenset(['doc']))))]

    def x_tempfile_TemporaryDirectory(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='mktemp', target=EMPTY)
        self.raise_(st, 'OSError', 'io', node)
        tf = self.new_res(st, node, 'tmpfile', tag='tmpdir', meta=[('dir', True)])
        f = self.new_res(st, node, 'tmpdir', attrs={'name': V(S(('tmp', tf[1]), frozenset(['tmp'])))},
                         meta=[('tmpfile', tf[1])])
        return [(st, V(f))]

    def tmp_of(self, a):
        """temporary-file objects a path value is made of"""
        r = []
        if a[0] == 'S':
            for p in a[1]:
                if not isinstance(p, str) and isinstance(p[1], tuple) and p[1][0] == 'tmp':
                    r.append((p[1][1], len(a[1]) == 1))
        return r

    def x_os_remove(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='delete', target=args[0] if args else EMPTY)
        hit = False
        for a in args[0] if args else ():
            for oid, whole in self.tmp_of(a):
                if whole and oid in st.heap and len(args[0]) == 1:
                    st.put(oid, st.heap[oid].setm('state', ('closed',)))
                    self.emit('release', st, node, oid=oid, rtype='tmpfile')
                    hit = True
        self.raise_(st, 'OSError', 'rmfail', node)
        return [(st, NONE)]

    x_shutil_rmtree = x_os_remove
    x_os_rmdir = x_os_remove

    def x_os_close(self, st, args, kwargs, node):
        for a in args[0]:
            if a[0] == 'R' and a[1] in st.heap and st.heap[a[1]].kind == 'res':
                self.close_res(st, a[1], node)
        return [(st, NONE)]

    def x_os_path_isfile(self, st, args, kwargs, node, what='isfile'):
        self.emit('effect', st, node, eff='stat', target=args[0] if args else EMPTY)
        if what in self.env and self.env_path(args):
            return [(st, cst(self.env[what]))]
        at = single(args[0]) or ('T', self.svn(node), NOL)
        return [(st, V(('B', self.vnargs(node, what, at), frozenset(['fs']))))]

    def x_os_path_exists(self, st, args, kwargs, node):
        return self.x_os_path_isfile(st, args, kwargs, node, 'exists')

    x_os_path_lexists = x_os_path_exists

    def x_os_path_isdir(self, st, args, kwargs, node):
        return self.x_os_path_isfile(st, args, kwargs, node, 'isdir')

    def x_os_path_islink(self, st, args, kwargs, node):
        return self.x_os_path_isfile(st, args, kwargs, node, 'islink')

    def x_os_access(self, st, args, kwargs, node):
        return self.x_os_path_isfile(st, args[:1], kwargs, node, 'exists')

    def x_pathlib_Path(self, st, args, kwargs, node):
        # a path object is represented by the string it stands for
        if len(args) == 1 and all(is_str(a) for a in args[0]):
            return [(st, args[0])]
        if not args:
            return [(st, cst('.'))]
        return self.x_os_path_join(st, args, kwargs, node)

    x_pathlib_PurePath = x_pathlib_PosixPath = x_pathlib_Path

    PATH_METHODS = {'is_file', 'exists', 'is_dir', 'open', 'read_text', 'read_bytes', 'write_text', 'write_bytes', 'unlink',
                    'resolve', 'absolute', 'expanduser', 'as_posix', 'stat', 'touch', 'mkdir', 'rename', 'with_suffix', 'with_name',
                    'joinpath'}

    def m_path(self, st, a, name, args, kwargs, node):
        p = V(a)
        if name in ('is_file', 'exists', 'is_dir'):
            return self.x_os_path_isfile(st, [p], {}, node, {'is_file': 'isfile', 'exists': 'exists', 'is_dir': 'isdir'}[name])
        if name == 'open':
            return self.x_open(st, [p] + list(args), kwargs, node)
        if name in ('read_text', 'read_bytes'):
            kw = dict(kwargs)
            if args:
                kw['encoding'] = args[0]
            kw['mode'] = cst('r' if name == 'read_text' else 'rb')
            out = []
            for s, f in self.x_open(st, [p], kw, node):
                (r,) = f
                for t, v in self.m_res(s, r, s.heap[r[1]], 'read', [], {}, node):
                    self.close_res(t, r[1], node)
                    out.append((t, v))
            return out
        if name in ('write_text', 'write_bytes'):
            self.emit('effect', st, node, eff='open', target=p, mode='w')
            self.raise_(st, 'OSError', 'io', node)
            return [(st, V(('N', None, NOL)))]
        if name == 'unlink':
            return self.x_os_remove(st, [p], {}, node)
        if name in ('touch', 'mkdir', 'rename'):
            self.emit('effect', st, node, eff='write', target=p, name='pathlib.' + name, args=args, kwargs=kwargs)
            self.raise_(st, 'OSError', 'io', node)
            return [(st, NONE)]
        if name in ('as_posix',):
            return [(st, p)]
        if name == 'joinpath':
            return self.x_os_path_join(st, [p] + list(args), {}, node)
        if name in ('resolve', 'absolute', 'expanduser'):
            return self.x_os_path_abspath(st, [p], {}, node)
        return [(st, V(top(self.svn(node), labels_of_atom(a) | self.arg_labels(st, args, kwargs))))]

    def x_os_path_abspath(self, st, args, kwargs, node):
        return [(st, V(S(self.svn(node), self.arg_labels(st, args, kwargs) | {'abs'})))]

    x_os_path_realpath = x_os_path_abspath

    def x_os_path_expanduser(self, st, args, kwargs, node):
        return [(st, V(S(self.svn(node), self.arg_labels(st, args, kwargs))))]

    def x_shlex_quote(self, st, args, kwargs, node):
        return [(st, V(S(self.svn(node), self.arg_labels(st, args, kwargs) | {'quoted', 'abs'})))]

    def x_os_path_join(self, st, args, kwargs, node):
        cur = args[0]
        if all(all(is_str(a) for a in v) for v in args):
            for v in args[1:]:
                cur = self.concat(self.concat(cur, cst('/'), node), v, node)
            return [(st, cur)]
        return [(st, V(S(self.svn(node), self.arg_labels(st, args, kwargs))))]

    def x_pkg_resources_resource_filename(self, st, args, kwargs, node):
        return [(st, V(S(('pkgres',) + tuple(single(v) for v in args if single(v)), frozenset(['kb', 'pkg']))))]

    def x_shutil_which(self, st, args, kwargs, node):
        return [(st, V(S(self.svn(node), frozenset(['cfg'])), NONE_A))]

    x_distutils_spawn_find_executable = x_shutil_which

    def x_magic_from_file(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='stat', target=args[0] if args else EMPTY)
        self.raise_(st, 'OSError', 'io', node)
        mime = kwargs.get('mime') or (args[1] if len(args) > 1 else None)
        if self.mime_values and mime is not None and mime == TRUE:
            return [(st, frozenset(const(x) for x in self.mime_values))]
        return [(st, V(S(self.svn(node), frozenset(['doc']))))]

    x_magic_from_buffer = x_magic_from_file

    def x_requests_get(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='net', target=args[0] if args else kwargs.get('url', EMPTY), kwargs=kwargs)
        self.raise_(st, 'requests.exceptions.RequestException', 'net', node)
        labs = frozenset(['net', 'doc'])
        if 'stream' in kwargs and kwargs['stream'] != FALSE:
            a = self.new_res(st, node, 'reqs', labels=labs)
            return [(st, V(a))]
        return [(st, V(('XI', 'requests.Response', self.svn(node), labs)))]

    x_requests_post = x_requests_get
    x_requests_request = x_requests_get

    def x_requests_Session(self, st, args, kwargs, node):
        return [(st, V(self.new_res(st, node, 'session')))]

    x_requests_session = x_requests_Session

    def x_urllib_request_urlretrieve(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='net', target=args[0])
        self.raise_(st, 'OSError', 'net', node)
        return [(st, V(top(self.svn(node))))]

    def x_subprocess_Popen(self, st, args, kwargs, node):
        cmd = args[0] if args else kwargs.get('args', EMPTY)
        self.emit('effect', st, node, eff='proc', target=cmd, kwargs=kwargs, name='subprocess.Popen')
        self.raise_(st, 'OSError', 'io', node)
        labs = frozenset(['doc'])
        at = {}
        text = any(k in kwargs and kwargs[k] != FALSE for k in ('text', 'universal_newlines', 'encoding'))
        lb = labs | (frozenset(['locale']) if text and 'encoding' not in kwargs else NOL)
        for nm in ('stdout', 'stderr', 'stdin'):
            if nm in kwargs and V(('X', 'subprocess.PIPE')) == kwargs[nm]:
                p = self.new_res(st, node, 'pipe', meta=[('text', text)] + ([('errors', 'x')] if 'errors' in kwargs else []),
                                 labels=lb, tag=nm)
                at[nm] = V(p)
            elif nm in kwargs and kwargs[nm] != NONE:
                at[nm] = NONE
            else:
                at[nm] = NONE
        at['returncode'] = V(('N', self.svn(node, 'rc'), NOL), NONE_A)
        p = self.new_res(st, node, 'proc', attrs=at, labels=labs)
        return [(st, V(p))]

    def x_subprocess_run(self, st, args, kwargs, node):
        cmd = args[0] if args else kwargs.get('args', EMPTY)
        self.emit('effect', st, node, eff='proc', target=cmd, kwargs=kwargs, name='subprocess.run')
        self.raise_(st, 'OSError', 'io', node)
        if 'check' in kwargs and kwargs['check'] != FALSE:
            self.raise_(st, 'subprocess.CalledProcessError', 'proc', node)
        if 'timeout' in kwargs and kwargs['timeout'] != NONE:
            self.raise_(st, 'subprocess.TimeoutExpired', 'proc', node)
        text = any(k in kwargs and kwargs[k] != FALSE for k in ('text', 'universal_newlines', 'encoding'))
        labs = frozenset(['doc'])
        e = V(S(self.svn(node, 'o'), labs | (NOL if 'encoding' in kwargs else frozenset(['locale'])))) if text else \
            V(('XI', 'bytes', self.svn(node, 'o'), labs))
        if text and 'errors' not in kwargs:
            self.raise_(st, 'UnicodeDecodeError', 'decode', node)
        a = self.alloc(st, node, Obj('inst', attrs={'stdout': e, 'stderr': e, 'returncode': V(('N', self.svn(node, 'rc'), NOL))}), 'cp')
        return [(st, V(a))]

    def x_subprocess_check_output(self, st, args, kwargs, node):
        rs = self.x_subprocess_run(st, args, dict(kwargs, check=TRUE), node)
        return [(s, s.heap[next(iter(v))[1]].attrs['stdout']) for s, v in rs]

    def x_contextlib_suppress(self, st, args, kwargs, node):
        names = []
        for v in args:
            for a in v:
                names.append(self.exc_class_of(st, a))
        a = self.alloc(st, node, Obj('inst', attrs={}, meta=(('suppress', tuple(names)),)), 'suppress')
        return [(st, V(a))]

    def x_contextlib_closing(self, st, args, kwargs, node):
        return [(st, args[0])]

    def x_contextlib_nullcontext(self, st, args, kwargs, node):
        a = self.alloc(st, node, Obj('inst', attrs={}, meta=(('suppress', ()),)), 'nullctx')
        return [(st, V(a))]

    def x_contextlib_ExitStack(self, st, args, kwargs, node):
        a = self.alloc(st, node, Obj('inst', attrs={}, meta=(('exitstack', True),)), 'exitstack')
        return [(st, V(a))]

    # -- csv, pypdf, inspire_utils, datetime ------------------------------------------------------------------------
    def x_csv_reader(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            labs = self.deep_labels(s, self.joined(sp))
            self.raise_(s, 'csv.Error', 'csv', node)
            delim = kwargs.get('delimiter', args[2] if len(args) > 2 else cst(','))
            if not sp['rest'] and len(args) < 2 and is_const(delim) and all(is_const(x) and isinstance(getc(x), str) for x in sp['items']) \
                    and set(kwargs) <= {'delimiter', 'lineterminator'}:
                # constant lines: the rows are constants
                try:
                    rows = list(csv.reader([getc(x) for x in sp['items']], delimiter=getc(delim)))
                except Exception:
                    rows = None
                if rows is not None:
                    vs = [V(self.new_list(s, node, [cst(c) for c in r], tag=('row', i))) for i, r in enumerate(rows)]
                    res.append((s, V(self.new_list(s, node, vs, tag='rows'))))
                    continue
            row = self.new_list(s, node, rest=V(S(self.svn(node, 'cell'), labs)), cnt=None, tag='row')
            s.put(row[1], s.heap[row[1]].but(multi=True))
            res.append((s, V(self.new_list(s, node, rest=V(row), cnt=None))))
        return res

    def x_pypdf_PdfReader(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='open', target=args[0] if args else kwargs.get('stream', EMPTY), mode='rb')
        self.raise_(st, 'Exception', 'ext:pypdf.PdfReader', node)
        return [(st, V(('XI', 'pypdf.PdfReader', self.svn(node), frozenset(['doc', 'pdf']))))]

    def x_inspire_utils_dedupers_dedupe_list(self, st, args, kwargs, node):
        res = []
        for s, sp in self.specs(st, args[0], node):
            if self.words and not sp['rest']:
                vs = [words.vec(single(v)) if len(v) == 1 else None for v in sp['items']]
                if None not in vs and all(a == b or all(x != y for x, y in zip(a, b)) for a in vs for b in vs):
                    keep = [v for i, v in enumerate(sp['items']) if vs[i] not in vs[:i]]
                    res.append((s, V(self.new_list(s, node, keep, meta=(('deduped', True),)))))
                    continue
            res.append((s, V(self.new_list(s, node, rest=self.joined(sp), cnt=None, labels=sp['labels'] & self.flow_labels,
                                           meta=(('deduped', True),)))))
        return res

    def x_datetime_datetime_now(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='time', target=EMPTY)
        return [(st, V(('XI', 'datetime', self.svn(node), frozenset(['time']))))]

    x_datetime_datetime_utcnow = x_datetime_datetime_now
    x_datetime_datetime_today = x_datetime_datetime_now
    x_datetime_now = x_datetime_datetime_now
    x_datetime_date_today = x_datetime_datetime_now

    def x_concurrent_futures_ThreadPoolExecutor(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='thread', target=EMPTY)
        return [(st, V(('XI', 'pool', self.svn(node), NOL)))]

    x_concurrent_futures_ProcessPoolExecutor = x_concurrent_futures_ThreadPoolExecutor
    x_multiprocessing_Pool = x_concurrent_futures_ThreadPoolExecutor

    def x_hashlib_md5(self, st, args, kwargs, node):
        return [(st, V(('XI', 'hash', self.svn(node), self.arg_labels(st, args, kwargs))))]

    x_hashlib_sha1 = x_hashlib_md5
    x_hashlib_sha256 = x_hashlib_md5

    def x_os_environ_get(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='env', target=args[0] if args else EMPTY)
        out = V(S(self.svn(node), frozenset(['env'])), NONE_A) if len(args) < 2 else join(V(S(self.svn(node), frozenset(['env']))), args[1])
        return [(st, out)]

    x_os_getenv = x_os_environ_get

    def x_operator_itemgetter(self, st, args, kwargs, node):
        return [(st, V(('X', 'operator.itemgetter()')))]

    def x_os_getcwd(self, st, args, kwargs, node):
        self.emit('effect', st, node, eff='env', target=EMPTY)
        return [(st, V(S(self.svn(node), frozenset(['env']))))]
