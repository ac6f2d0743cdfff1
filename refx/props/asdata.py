"""C09: text of a document is never interpreted (pattern, template, command, option)."""
from ..common import *  # noqa
from ..common import Monitor, P, PS, stub_any
from ..expr import is_str
from .history import roots

WHAT = {'doc': 'document text', 'path': 'a file name', 'url': 'a URL', 'kbt': 'a title of a plain-text knowledge base'}
PLAIN = frozenset(WHAT)
IDS = frozenset(['re', 'compile', 'sub', 'subn', 'match', 'search', 'fullmatch', 'finditer', 'findall', 'split', 'format', 'format_map',
                 'eval', 'exec', 'Popen', 'run', 'system', 'popen', 'check_output', 'call', 'check_call', 'subprocess', 'Template',
                 'expand', 'getattr', '__import__', 'import_module', 'escape', 'shlex', 'strftime'])


def tainted(ip, a, ok='esc'):
    """a text of the input in the atom that was not escaped"""
    if a[0] == 'T':
        labs = labels_of_atom(a)
        return None if ok in labs else next(iter(sorted(labs & PLAIN)), None)
    ps = parts_of(a) if a[0] in ('S', 'C') else None
    if ps is None:
        return None
    for p in ps:
        if isinstance(p, str):
            continue
        labs = p[2]
        if ok in labs or ip.digvn and p[1] in ip.digvn:
            continue
        r = labs & PLAIN
        if r:
            return sorted(r)[0]
    return None


class AsData(Monitor):
    def bad(self, ip, node, what, how):
        self.ctx.report('interpreted', ip, node, '%s is interpreted as %s' % (WHAT[what], how), key='%s | %s' % (how, ip.site(node)))

    def on_regex(self, ip, st, node, info):
        self.ctx.count('patterns_checked')
        w = tainted(ip, info['atom'])
        if w:
            self.bad(ip, node, w, 'a regular expression')

    def on_repl(self, ip, st, node, info):
        self.ctx.count('templates_checked')
        w = tainted(ip, info['atom'], 'esct')
        if w:
            self.bad(ip, node, w, 'a substitution template')

    def on_fmtstr(self, ip, st, node, info):
        self.ctx.count('templates_checked')
        w = tainted(ip, info['atom'])
        if w:
            self.bad(ip, node, w, 'a formatting template')

    def on_effect(self, ip, st, node, info):
        e = info['eff']
        if e == 'eval':
            for a in info['target'] or ():
                w = tainted(ip, a)
                if w:
                    self.bad(ip, node, w, 'code')
        elif e == 'proc':
            self.ctx.count('commands_checked')
            kw = info.get('kwargs') or {}
            shell = kw.get('shell')
            name = info.get('name') or ''
            sh = (shell is not None and shell and all(a[0] == 'C' and a[2] for a in shell)) or name in ('os.system', 'os.popen', 'subprocess.getoutput',
                                                                                                     'subprocess.getstatusoutput')
            for a in info['target'] or ():
                if is_str(a) or a[0] == 'T':
                    w = tainted(ip, a, 'quoted')
                    if w and sh:
                        self.bad(ip, node, w, 'a shell command')
                elif a[0] == 'R' and a[1] in st.heap and st.heap[a[1]].kind == 'list':
                    o = st.heap[a[1]]
                    dd = False
                    for i, x in enumerate(o.items):
                        for b in x:
                            if sh and i == 0 and tainted(ip, b, 'quoted'):
                                self.bad(ip, node, tainted(ip, b, 'quoted'), 'a shell command')
                            if b[0] == 'C' and b[2] == '--':
                                dd = True
                            if not dd and i and option(b):
                                self.bad(ip, node, tainted(ip, b), 'a program option')


def option(a):
    """can the argument start with a dash"""
    if a[0] != 'S':
        return False
    ps = parts_of(a)
    if not ps or isinstance(ps[0], str):
        return False
    labs = ps[0][2]
    return bool(labs & PLAIN) and 'abs' not in labs


def c09(ctx):
    ctx.rule('every pattern, substitution template, format template, evaluated text and command line built on an analysed path: no '
             'part of it is text of the input (line, document, file name, URL), except escaped text in a pattern, quoted text in a '
             'shell command, and an absolute path as a program argument')
    mon = AsData(ctx)
    ctx.rule('titles of a journal knowledge base given as a file, a mapping or a list of pairs reach a pattern only escaped')
    titles(ctx, mon)
    for root in ('tag_reference_line', 'identify_and_tag_DOI', 'identify_and_tag_URLs'):
        fi = ctx.need(root)
        if fi is None:
            continue

        def setup(ip, s, root=root, fi=fi):
            a = [PS('line', ['doc'])]
            if root == 'tag_reference_line':
                a += [P('kbs'), V(ip.new_dict(s, fi.node, {}))]
            return a, {}
        ctx.run(fi, setup, monitors=[mon], maxstates=12)
    for name, fi, setup, stubs in roots(ctx, None):
        if name == 'extract_journal_reference':      # its parts are analysed on their own
            continue
        ctx.run(fi, setup, monitors=[mon], stubs=dict(stubs), maxstates=16, mime_values=['text/plain', 'application/pdf'])
    prl = ctx.need('parse_reference_line')
    if prl is not None:
        ctx.run(prl, lambda ip, s: ([PS('line', ['doc']), P('kbs')], {}), monitors=[mon], maxstates=12,
                stubs=prl_stubs(ctx, prl))


def prl_stubs(ctx, prl):
    out = {}
    f = ctx.fn('tag_reference_line')
    if f is not None:
        def tagged(ip, st, fi, args, kwargs, node):
            return [(st, V(('U', (V(S(ip.svn(node, 'tagged'), frozenset(['doc']))), P('counts')))))]
        out[f.qual] = tagged
    return out


def titles(ctx, mon):
    """journal titles given as plain text, through every way of supplying them"""
    root = ctx.need('extract_journal_reference')
    prl = ctx.need('parse_reference_line')
    if root is None or prl is None:
        return
    from ..interp import Interp
    k = V(S(('param', 'kbkey'), ['kbt']))
    v = V(S(('param', 'kbvalue'), ['kbt']))

    def path_label(a):
        return 'kbt' if a == const('/given/titles.kb') else None

    def shapes(ip, s):
        n = root.node
        yield 'file', cst('/given/titles.kb')
        yield 'mapping', V(ip.new_dict(s, n, {next(iter(k)): (v, True)}, tag='m'))
        yield 'pairs', V(ip.new_list(s, n, (V(('U', (k, v))),), tag='p'))
    for i in range(3):
        def setup(ip, s, i=i):
            sh = list(shapes(ip, s))[i][1]
            ov = V(ip.new_dict(s, root.node, {const('journals'): (sh, True)}, tag='ov'))
            return [PS('line', ['doc'])], dict(override_kbs_files=ov)
        ctx.run(root, setup, monitors=[mon], stubs={prl.qual: stub_any(labels=['doc'])}, path_label=path_label,
                flow_labels=Interp.flow_labels | {'kbt'})
        ctx.count('knowledge_base_shapes')
