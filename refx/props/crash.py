"""C17: no reference text makes the parser raise."""
from ..common import *  # noqa
from ..common import Monitor, P, PS
from . import lines
from .asdata import prl_stubs
from .history import roots

KINDS = {'nomatch': 'a match that failed is used as if it had succeeded',
         'nopart': 'the text of a group that took no part in the match is used',
         'nogroup': 'a group that the pattern does not have is asked for',
         'unbound': 'a variable is read that is not set on this path',
         'int:isdigit': 'text that passes isdigit/isnumeric is converted with int(), which fails for digits such as superscripts',
         'int:grp': 'a group that need not be a number is converted with int()',
         'int:free': 'unchecked text is converted with int()',
         'int!': 'a text that is not a number is converted'}


def caught(ctx, ip, excs, tagparser):
    for s, e in excs:
        k = str(e.kind)
        if k not in KINDS:
            continue
        if k == 'unbound' and tagparser is not False and (tagparser is None or tagparser & set(e_path(e))):
            # which tags exist is decided by the scenario part
            continue
        ctx.report_static('raises', '%s | %s' % (k, e.site), e.site, '%s (%s)' % (KINDS[k], cls(e)))


def cls(e):
    return e.cls if isinstance(e.cls, str) else str(e.cls)


def e_path(e):
    """qualified names of the function in which it was raised"""
    return {str(e.site).split(':')[1].split('.')[-1].split(' ')[0]} if ':' in str(e.site) else set()


def c17(ctx):
    ctx.rule('exceptions that escape from the recognisers, the line parser and the section finder on some analysed path: failed match '
             'used, absent group used, unknown group, unset variable, int() of text that need not be a number')
    for root in ('tag_reference_line', 'identify_and_tag_DOI', 'identify_and_tag_URLs'):
        fi = ctx.need(root)
        if fi is None:
            continue

        def setup(ip, s, root=root, fi=fi):
            a = [PS('line', ['doc'])]
            if root == 'tag_reference_line':
                a += [P('kbs'), V(ip.new_dict(s, fi.node, {}))]
            return a, {}
        ip, rets, excs = ctx.run(fi, setup, maxstates=12)
        caught(ctx, ip, excs, False)
    for name, fi, setup, stubs in roots(ctx, None):
        if name in ('extract_journal_reference', 'extract_texkeys_and_urls_from_pdf'):
            continue
        ip, rets, excs = ctx.run(fi, setup, stubs=dict(stubs), maxstates=16, mime_values=['text/plain', 'application/pdf'])
        caught(ctx, ip, excs, False)
    prl = ctx.need('parse_reference_line')
    if prl is not None:
        f = ctx.fn('parse_tagged_reference_line')
        ks = ctx.reach(f) if f else ()
        tp = {x.name for x in ctx.prog.fnode.values() if x.key in ks} if f else None
        ip, rets, excs = ctx.run(prl, lambda ip, s: ([PS('line', ['doc']), P('kbs')], {}), maxstates=12, stubs=prl_stubs(ctx, prl))
        caught(ctx, ip, excs, tp)
    special(ctx)
    ctx.rule('lines of up to three recognised items with opaque text around them, propagated through the line parser: no scenario ends in '
             'an exception')
    L = lines.Lines(ctx)
    if not L.ok:
        return
    titled = []

    def listed(ip, s):
        return V(ip.new_list(s, L.fi.node, [V(t) for t in titled], tag='special'))
    L2 = lines.Lines(ctx, kbs={'special_journals': listed})
    for yr in (True, False):
        for vol in ('1', '12', '123'):
            for pg in ('5', '501', '1990'):
                for kind in ('JOURNAL', 'JOURNALibid'):
                    it = lines.It(kind, 1, yr=yr, vol=vol, pg=pg)
                    titled[:] = [it.attrs['title']]
                    tokens = [lines.txt(0), lines.const(' '), it]
                    rets, excs = L2.parse(tokens)
                    ctx.count('lines_judged')
                    definite(ctx, tokens, rets, excs)
    for tokens in lines.scenarios(ctx):
        if ctx.incomplete and 'time budget exhausted' in ctx.incomplete:
            return
        rets, excs = L.parse(tokens)
        ctx.count('lines_judged')
        definite(ctx, tokens, rets, excs)
        if len(ctx.findings) >= 12:
            return


SURE = {'none', 'nomatch', 'nopart', 'nogroup', 'unbound', 'undef', 'key!', 'index!', 'int!', 'attr', 'remove!', 'unpack'}


def definite(ctx, tokens, rets, excs):
    for s, e in excs:
        if not rets or str(e.kind) in SURE:
            ctx.report_static('line-raises', '%s | %s' % (e.kind, e.site), e.site,
                              'line [%s]: %s' % (lines.describe(tokens), cls(e)))


def special(ctx):
    """a journal whose volume and page are rewritten"""
    fi = ctx.fn('handle_special_journals')
    if fi is None:
        return

    def setup(ip, s):
        el = {const('type'): (cst('JOURNAL'), True)}
        for k in ('title', 'volume', 'year', 'page', 'misc_txt'):
            el[const(k)] = (PS(k, ['doc']), True)
        d = V(ip.new_dict(s, fi.node, el, tag='el'))
        return [V(ip.new_list(s, fi.node, (d,), tag='els')), P('kbs')], {}
    ip, rets, excs = ctx.run(fi, setup)
    caught(ctx, ip, excs, False)
