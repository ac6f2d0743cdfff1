"""C01, C02: resource typestate."""
from ..common import *  # noqa
from ..common import Monitor, P, PS, stub_any


def leaks(ctx, ip, rets, excs, types, rule, what):
    fin = [(s, None) for s, _v in rets] + [(s, e) for s, e in excs]
    for s, e in fin:
        for oid, o in s.heap.items():
            if o.kind != 'res' or o.m('rtype') not in types:
                continue
            ctx.count('handle_exit_pairs')
            stt = o.m('state') or ()
            if 'open' in stt:
                how = 'on normal return' if e is None else 'when %s is raised at %s' % (e.cls, e.site)
                ctx.report_static(rule, '%s' % (o.site,), str(o.site), '%s (%s) acquired here is not released %s' % (
                    what.get(o.m('rtype'), 'handle'), o.m('rtype'), how))


NAMES = {'file': 'a file', 'fd': 'a file descriptor', 'tmpfile': 'a temporary file', 'proc': 'a child process',
         'pipe': 'a pipe', 'mmap': 'a memory mapping', 'tmpdir': 'a temporary directory'}


def file_stub(ctx):
    f = ctx.fn('extract_references_from_file')
    return {f.qual: stub_any()} if f else {}


class Copies(Monitor):
    """files written on the path other than the temporary file itself, until something other than it is deleted"""
    TO = ('shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.move', 'os.link', 'os.rename', 'os.replace')

    def on_effect(self, ip, st, node, info):
        eff = info.get('eff')
        if eff == 'delete':
            if not self.own(ip, st, info.get('target')):
                st.setg('stray', None)
            return
        dst = None
        if eff == 'open' and any(c in str(info.get('mode')) for c in 'wax'):
            dst = info.get('target')
        elif eff == 'write' and info.get('name') in self.TO and len(info.get('args') or ()) > 1:
            dst = info['args'][1]
        if not dst or any(not (a[0] == 'S' or a[0] == 'C' and isinstance(a[2], str) and a[2] != '/dev/null') for a in dst):
            return
        if any(isinstance(p, tuple) and p[1] == ('fdpath',) for a in dst if a[0] == 'S' for p in a[1]):
            return
        self.ctx.count('written_paths_judged')
        if not self.own(ip, st, dst):
            st.setg('stray', str(ip.site(node)))

    def own(self, ip, st, dst):
        """is this the temporary file, or something inside a temporary directory"""
        dirs = any(o.kind == 'res' and o.m('dir') for o in st.heap.values())
        return bool(dst) and all(any(whole for _o, whole in ip.tmp_of(a)) or (dirs and 'tmp' in labels_of_atom(a)) for a in dst)


def c01(ctx):
    ctx.rule('at every normal and exceptional exit of the URL entry point every temporary file created is deleted '
             'and its descriptor closed; the parser is replaced by "returns anything or raises anything"')
    ip, rets, excs = ctx.run('extract_references_from_url',
                             lambda ip, st: ([PS('url', ['url'])], dict(headers=P('headers'), chunk_size=P('chunk_size'))),
                             stubs=file_stub(ctx), monitors=[Copies(ctx)])
    if ip is None:
        return
    leaks(ctx, ip, rets, excs, ('tmpfile', 'fd', 'tmpdir'), 'temp-not-removed', NAMES)
    for s in [s for s, _v in rets] + [s for s, _e in excs]:
        if s.g('stray'):
            ctx.report_static('copy-not-removed', s.g('stray'), s.g('stray'), 'a file written here, other than the temporary file, is never deleted')


RESIDS = frozenset(['open', 'fdopen', 'mkstemp', 'NamedTemporaryFile', 'TemporaryFile', 'TemporaryDirectory', 'mkdtemp',
                    'Popen', 'run', 'check_output', 'mmap', 'popen', 'reader', 'file_resolving', 'requests',
                    'subprocess', 'io', 'PdfReader', 'SpooledTemporaryFile'])


def c02(ctx):
    ctx.rule('at every normal and exceptional exit every file, descriptor, memory mapping, pipe and child process '
             'acquired since entry is closed (process: waited for)')
    types = ('file', 'fd', 'proc', 'pipe', 'mmap', 'tmpdir')
    stubs = ctx.slice_stubs(RESIDS)
    ctx.notes.append('stubbed (cannot reach an acquisition): %d functions' % len(stubs))
    D = ['path']
    for name, setup, st2 in (
        ('extract_references_from_file', lambda ip, st: ([PS('path', D)], {}), {}),
        ('extract_references_from_url', lambda ip, st: ([PS('url', ['url'])], dict(headers=P('headers'))), file_stub(ctx)),
        ('extract_references_from_string', lambda ip, st: ([PS('source', ['doc'])], {}), {}),
        ('extract_journal_reference', lambda ip, st: ([PS('line', ['doc'])], {}), {}),
        ('get_kbs', lambda ip, st: ([P('custom_kbs')], {}), {}),
    ):
        s = dict(stubs)
        s.update(st2)
        s.pop('x', None)
        ip, rets, excs = ctx.run(name, setup, stubs=s, budget=200)
        if ip is not None:
            leaks(ctx, ip, rets, excs, types, 'not-released', NAMES)
        if ctx.findings:
            break       # the analysis of the other roots multiplies with every handle left open
