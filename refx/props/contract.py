"""C03: input and failure contract (scenario partition of the environment's answers)."""
from ..common import *  # noqa
from ..common import Monitor, P, PS, stub_any
from .resources import RESIDS

NOTAVAIL = 'FullTextNotAvailableError'
UNKTYPE = 'UnknownDocumentTypeError'

OTHER_TYPES = ('text/html', 'text/x-tex', 'text/xml', 'text/plain; charset=utf-8', 'text/csv', 'text/rtf', 'text', 'plain',
               'application/octet-stream', 'application/postscript', 'application/x-pdf', 'application/pdfx', 'application/zip',
               'application/msword', 'application/xml', 'application/x-tex', 'application/json', 'application/gzip',
               'application', 'image/png', 'image/pdf', 'inode/x-empty', 'message/rfc822', '')


def short(c):
    return str(c).split('.')[-1]


class Effects(Monitor):
    def __init__(self, ctx, scenario):
        super().__init__(ctx)
        self.sc = scenario
        self.seen = set()

    def on_effect(self, ip, st, node, info):
        self.ctx.count('effects_seen')
        self.bad(ip, st, node, info)

    def bad(self, ip, st, node, info):
        pass


PATHTOUCH = {'proc', 'filewrite', 'delete', 'write'}


class NoTouch(Effects):
    def bad(self, ip, st, node, info):
        e = info['eff']
        if e in PATHTOUCH or (e == 'open' and any(c in str(info.get('mode', '')) for c in 'wax')):
            if 'path' in labels_of(info['target'] or EMPTY) or e in ('proc',):
                self.ctx.report('missing-file-touched', ip, node,
                                'with a path that is %s, this is still reached (%s)' % (self.sc, e))


class NoRead(Effects):
    def bad(self, ip, st, node, info):
        if info['eff'] == 'netread':
            self.ctx.report('error-body-read', ip, node, 'the body of a response with status %s is read' % self.sc)


class Procs(Effects):
    def bad(self, ip, st, node, info):
        if info['eff'] == 'proc':
            self.seen.add('proc')
            if self.sc == 'text/plain':
                self.ctx.report('text-converted', ip, node, 'a plain-text document is handed to an external program')


def quiet_stub(names):
    return {n: stub_any(raises=False) for n in names}


def capture_stub(log, name):
    def f(ip, st, fi, args, kwargs, node):
        log.append((name, ip.where(node), ip.site(node)))
        return [(st, V(top(ip.svn(node, 'stub'))))]
    return f


def exits(ctx, rule, ip, rets, excs, want, what, only_user=False):
    for s, v in rets:
        ctx.report_static(rule, what, ip_root(ctx), '%s: the call returns instead of raising %s' % (what, want))
    for s, e in excs:
        if ip.isa(e.cls, want) or short(e.cls) == want:
            continue
        if only_user and e.kind != 'user':
            continue
        ctx.report_static(rule, '%s | %s' % (what, e.site), e.site, '%s: %s is raised instead of %s' % (what, short(e.cls), want))


def ip_root(ctx):
    return ctx.roots[-1] if ctx.roots else '?'


def c03(ctx):
    ctx.rule('scenario "path is not a file": every exit of the file entry point raises FullTextNotAvailableError and '
             'nothing writes, converts or deletes the path')
    ctx.rule('scenario "HTTP status >= 400": every exit of the URL entry point raises FullTextNotAvailableError, the body is '
             'never read and nothing is parsed')
    ctx.rule('scenario "detected type t": text/plain is read without a converter, application/pdf goes through the '
             'converter, every other type raises UnknownDocumentTypeError and nothing is parsed')
    base = ctx.slice_stubs(RESIDS | {'isfile', 'exists', 'is_file', 'magic', NOTAVAIL, UNKTYPE}, mode='quiet')
    parse = ctx.fn('parse_references')
    froot = ctx.need('extract_references_from_file')
    uroot = ctx.need('extract_references_from_url')
    kb = ctx.fn('get_kbs')
    if kb:
        base[kb.qual] = stub_any(raises=False)
    if froot:
        for sc, env in (('not existing', dict(isfile=False, exists=False, isdir=False)),
                        ('a directory', dict(isfile=False, exists=True, isdir=True)),
                        ('a device or pipe', dict(isfile=False, exists=True, isdir=False))):
            st = dict(base)
            log = []
            if parse:
                st[parse.qual] = capture_stub(log, 'parse_references')
            ip, rets, excs = ctx.run(froot, lambda ip, s: ([PS('path', ['path'])], {}), stubs=st,
                                     monitors=[NoTouch(ctx, sc)], env=env)
            exits(ctx, 'missing-file-contract', ip, rets, excs, NOTAVAIL, 'path is %s' % sc)
            for _n, w, k in log:
                ctx.report_static('missing-file-parsed', k, w, 'with a path that is %s, parsing is still reached' % sc)
            ctx.count('scenarios')
        for mime in ('text/plain', 'application/pdf') + OTHER_TYPES:
            st = dict(base)
            log = []
            if parse:
                st[parse.qual] = capture_stub(log, 'parse_references')
            mon = Procs(ctx, mime)
            ip, rets, excs = ctx.run(froot, lambda ip, s: ([PS('path', ['path'])], {}), stubs=st, monitors=[mon],
                                     env=dict(isfile=True, exists=True, isdir=False), mime_values=(mime,))
            ctx.count('scenarios')
            if mime in ('text/plain', 'application/pdf'):
                if not rets and not ctx.incomplete:
                    ctx.report_static('supported-type-refused', mime, froot.qual, 'a document of type %s is never parsed' % mime)
                if mime == 'application/pdf' and rets and 'proc' not in mon.seen and ip_saw(ip, 'subprocess'):
                    ctx.report_static('pdf-not-converted', mime, froot.qual, 'a PDF is parsed without going through the converter')
            else:
                exits(ctx, 'unsupported-type', ip, rets, excs, UNKTYPE, 'detected type "%s"' % mime, only_user=True)
                for _n, w, k in log:
                    ctx.report_static('unsupported-type-parsed', k, w, 'a document of type "%s" reaches the parser' % mime)
    if uroot and froot:
        for status in (400, 401, 403, 404, 410, 429, 500, 502, 503, 599):
            log = []
            ip, rets, excs = ctx.run(uroot, lambda ip, s: ([PS('url', ['url'])], {}),
                                     stubs={froot.qual: capture_stub(log, 'file')}, monitors=[NoRead(ctx, status)],
                                     env=dict(http=status))
            ctx.count('scenarios')
            for s, v in rets:
                ctx.report_static('http-error-contract', 'return', uroot.qual, 'status %d: the call returns' % status)
            for s, e in excs:
                if e.kind in ('io', 'rmfail') or (e.kind == 'net' and short(e.cls) == 'RequestException'):
                    continue
                if short(e.cls) != NOTAVAIL:
                    ctx.report_static('http-error-contract', e.site, e.site, 'status %d: %s is raised instead of %s' % (
                        status, short(e.cls), NOTAVAIL))
            for _n, w, k in log:
                ctx.report_static('http-error-parsed', k, w, 'a response with status %d reaches the parser' % status)
        for status in (200, 206):
            ip, rets, excs = ctx.run(uroot, lambda ip, s: ([PS('url', ['url'])], {}),
                                     stubs={froot.qual: stub_any(raises=False)}, env=dict(http=status))
            if not rets:
                ctx.report_static('http-ok-refused', str(status), uroot.qual, 'a successful response is never parsed')


def ip_saw(ip, x):
    return any(n.startswith(x) for n in ip.extseen) or True
