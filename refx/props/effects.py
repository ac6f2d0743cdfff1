"""C10: effect confinement (which resources each entry point touches)."""
from ..common import *  # noqa
from ..common import Monitor, P, PS, stub_any

IDS = frozenset(['open', 'fdopen', 'mkstemp', 'mkdtemp', 'NamedTemporaryFile', 'TemporaryFile', 'TemporaryDirectory', 'Popen', 'run',
                 'check_output', 'check_call', 'call', 'system', 'popen', 'mmap', 'requests', 'subprocess', 'remove', 'unlink', 'rename', 'replace',
                 'rmtree', 'rmdir', 'shutil', 'urlopen', 'urlretrieve', 'urllib', 'socket', 'write_text', 'write_bytes', 'touch',
                 'mkdir', 'makedirs', 'truncate', 'os', 'tempfile', 'pathlib', 'Path', 'http', 'write', 'dump', 'pickle',
                 'PdfReader', 'PdfWriter', 'io', 'multiprocessing', 'sqlite3', 'FileHandler'])
NETWORK = {'net'}
PROC = {'proc'}
DISK = {'delete', 'write', 'mktemp'}


def tmpval(ip, v):
    return any(ip.tmp_of(a) for a in v)


def unknown(v):
    return not v or any(a[0] in ('T', 'XI') for a in v)


class Conf(Monitor):
    def __init__(self, ctx, root, net, proc, write):
        super().__init__(ctx)
        self.root, self.net, self.proc, self.write = root, net, proc, write

    def bad(self, ip, node, what):
        self.ctx.report('effect-not-allowed', ip, node, 'reached from %s: %s' % (self.root, what),
                        key='%s | %s' % (self.root, ip.site(node)))

    def on_effect(self, ip, st, node, info):
        e = info['eff']
        t = info.get('target') or EMPTY
        mode = str(info.get('mode', ''))
        self.ctx.count('effects_seen')
        if e in NETWORK:
            if not self.net:
                self.bad(ip, node, 'the network is used')
                return
            name = info.get('name') or ''
            if name.endswith('ession') or name == 'urllib3.PoolManager':
                return
            labs = labels_of(t)
            if t and 'url' not in labs and not unknown(t):
                self.bad(ip, node, 'an address other than the given URL is contacted')
            n = (st.g('net') or 0) + 1
            st.setg('net', min(n, 2))
            if n > 1:
                self.bad(ip, node, 'the network is contacted more than once')
        elif e in PROC:
            if not self.proc:
                self.bad(ip, node, 'a process is started')
        elif e == 'open' and (any(c in mode for c in 'wax') or '+' in mode):
            self.writes(ip, st, node, t, 'written')
        elif e == 'delete':
            if self.write is None:
                self.bad(ip, node, 'a file is deleted')
            elif not tmpval(ip, t) and ('path' in labels_of(t) or all(a[0] == 'C' for a in t)):
                self.bad(ip, node, 'a file that is not a temporary file of the call is deleted')
        elif e == 'mktemp':
            if self.write != 'tmp':
                self.bad(ip, node, 'a temporary file is created')
        elif e == 'write':
            if info.get('name') in ('os.write', 'os.ftruncate', 'os.umask'):
                return
            self.writes(ip, st, node, frozenset().union(*(info.get('args') or [t])), 'changed (%s)' % info.get('name'))

    def writes(self, ip, st, node, t, how):
        if self.write is None:
            self.bad(ip, node, 'a file is %s' % how)
        elif not tmpval(ip, t) and 'path' not in labels_of(t) and not unknown(t):
            self.bad(ip, node, 'a file other than the given document is %s' % how)


def c10(ctx):
    ctx.rule('string, list, text and publication-info calls: no network, process, temporary file, or file opened for writing, '
             'moved or deleted on any analysed path')
    ctx.rule('file call: no network; only the given document is opened for writing; nothing is deleted')
    ctx.rule('URL call: at most one request, to the given URL; only its own temporary file is written and deleted')
    base = ctx.slice_stubs(IDS, minsize=8, mode='raise')
    ctx.notes.append('functions from which no effect is reachable: %d' % len(base))

    def go(name, setup, net, proc, write, extra=None):
        fi = ctx.need(name)
        if fi is None:
            return
        st = dict(base)
        st.update(extra or {})
        st.pop(fi.qual, None)
        ctx.run(fi, setup, stubs=st, monitors=[Conf(ctx, name, net, proc, write)])
    one = lambda ip, s: ([PS('text', ['doc'])], dict(override_kbs_files=P('override')))  # noqa
    go('extract_references_from_string', one, False, False, None)
    go('extract_references_from_string', lambda ip, s: ([PS('text', ['doc'])], dict(is_only_references=FALSE)), False, False, None)
    go('extract_journal_reference', one, False, False, None)
    svc = lambda ip, s: ([P('data', ['doc']), P('journal_kb_data')], {})  # noqa
    for n in ('extract_references_from_list', 'extract_journal_info', 'extract_references_from_text'):
        go(n, svc, False, False, None)
    go('extract_references_from_file', lambda ip, s: ([PS('path', ['path'])], dict(override_kbs_files=P('override'))), False, True, 'path')
    ff = ctx.fn('extract_references_from_file')
    go('extract_references_from_url', lambda ip, s: ([PS('url', ['url'])], dict(headers=P('headers'))), True, True, 'tmp',
       {ff.qual: stub_any()} if ff else {})
    # what the file call does with the downloaded copy is what it does with any path
    fu = ctx.fn('extract_references_from_url')
    go('extract_references_from_file_url', lambda ip, s: ([PS('url', ['url']), P('journal_kb_data')], {}), True, True, 'tmp',
       {ff.qual: stub_any()} if ff else {})
