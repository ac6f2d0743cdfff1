"""What every check shares: running roots, collecting findings, evidence."""
import ast
import os
import re
import time

from .dom import *  # noqa
from .front import Program
from .interp import Budget, Interp

REPO = os.environ.get('REFX_REPO', '/repo')


class Finding:
    def __init__(self, rule, key, where, msg, path=''):
        self.rule = rule
        self.key = key            # line-number free construct id
        self.where = where
        self.msg = msg
        self.path = path

    def ident(self):
        return '%s | %s' % (self.rule, self.key)

    def as_dict(self):
        return dict(rule=self.rule, construct=self.key, where=self.where, message=self.msg, call_path=self.path)


class Ctx:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.prog = Program(REPO)
        self.findings = {}
        self.counts = {}
        self.functions = set()
        self.notes = []
        self.rules = []
        self.roots = []
        self.incomplete = []
        self.t0 = time.time()
        self.budget = float(os.environ.get('REFX_BUDGET', '780'))
        self._callees = None

    # -- bookkeeping ----------------------------------------------------------
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, txt):
        self.rules.append(txt)

    def report(self, rule, ip, node, msg, key=None):
        if key is None:
            key = ip.site(node)
        f = Finding(rule, key, ip.where(node), msg, ip.path())
        self.findings.setdefault(f.ident(), f)

    def report_static(self, rule, key, where, msg):
        f = Finding(rule, key, where, msg)
        self.findings.setdefault(f.ident(), f)

    # -- program --------------------------------------------------------------
    def fn(self, name):
        return self.prog.find(name)

    def need(self, name):
        f = self.prog.find(name)
        if f is None:
            self.incomplete.append('entry point %s not found' % name)
        return f

    def callees(self):
        """name based call graph: qual -> (called program functions, identifiers used)"""
        if self._callees is None:
            byname = {}
            for f in self.prog.funcs:
                byname.setdefault(f.name, []).append(f)
            g = {}
            for f in self.prog.funcs:
                ids = set()
                subs = set()
                for b in f.body:
                    for n in ast.walk(b):
                        if isinstance(n, ast.Name):
                            ids.add(n.id)
                        elif isinstance(n, ast.Attribute):
                            ids.add(n.attr)
                        elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                            x = self.prog.fnode.get(id(n))
                            if x:
                                subs.add(x.key)
                for i in ids:
                    for x in byname.get(i, ()):
                        subs.add(x.key)
                n = sum(1 for b in f.body for x in ast.walk(b) if isinstance(x, ast.stmt))
                g[f.key] = (subs, ids, n)
            self._callees = g
        return self._callees

    def reads(self, name):
        """is the key `name` read anywhere (x["name"], x.get("name"), "%(name)s", "{name}")"""
        if getattr(self, '_reads', None) is None:
            r = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m):
                    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and \
                            isinstance(n.ctx, ast.Load):
                        r.add(n.slice.value)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args and isinstance(n.args[0], ast.Constant):
                        r.add(n.args[0].value)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and ('%(' in n.value or '{' in n.value):
                        r.update(re.findall(r'%\((\w+)\)|\{(\w+)\}', n.value) and
                                 [x for t in re.findall(r'%\((\w+)\)|\{(\w+)\}', n.value) for x in t])
            self._reads = r
        return name in self._reads

    def reach(self, f):
        g = self.callees()
        seen = set()
        work = [f.key]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            work += list(g[k][0])
        return seen

    def slice_stubs(self, ids, minsize=25, mode='raise'):
        """stub every function from which none of the identifiers `ids` can be
        reached and whose transitive body is large"""
        g = self.callees()
        out = {}
        for f in self.prog.funcs:
            r = self.reach(f)
            if any(g[k][1] & ids for k in r):
                continue
            if sum(g[k][2] for k in r) >= minsize:
                out[f.qual] = stub_any(raises=(mode == 'raise'))
        return out

    # -- running ----------------------------------------------------------------
    def run(self, fi, setup, stubs=None, monitors=(), maxstates=12, budget=None, **kw):
        if isinstance(fi, str):
            fi = self.need(fi)
            if fi is None:
                return None, [], []
        left = self.budget - (time.time() - self.t0)
        ip = Interp(self.prog, stubs=stubs or {}, monitors=monitors, maxstates=maxstates,
                    budget=min(left, budget or left))
        for k, v in kw.items():
            setattr(ip, k, v)
        ip.load_all()
        ip.t0 = time.time()
        self.roots.append(fi.qual)
        try:
            rets, excs = ip.run(fi, setup=setup)
        except Budget:
            self.incomplete.append('time budget exhausted in %s' % fi.qual)
            rets, excs = [], []
        self.functions |= ip.reached
        self.count('roots')
        self.count('calls_analysed', ip.stats['calls'])
        self.count('statements_interpreted', ip.stats['stmts'])
        self.count('exit_states', len(rets))
        self.count('exceptional_exits', len(excs))
        for t in ip.topsites:
            if t not in self.notes and len(self.notes) < 40:
                self.notes.append(t)
        return ip, rets, excs


    def session(self, stubs=None, monitors=(), maxstates=12, **kw):
        """one interpreter with the modules loaded, for many scenarios"""
        left = self.budget - (time.time() - self.t0)
        ip = Interp(self.prog, stubs=stubs or {}, monitors=monitors, maxstates=maxstates, budget=left)
        for k, v in kw.items():
            setattr(ip, k, v)
        ip.load_all()
        ip.t0 = time.time()
        return ip

    def scenario(self, ip, fi, setup, stubs=None, limit=20):
        """run one more root in a session"""
        if stubs is not None:
            ip.stubs = stubs
        self.roots.append(fi.qual)
        ip.allocs = {}
        c0, s0 = ip.stats['calls'], ip.stats['stmts']
        left = self.budget - (time.time() - self.t0)
        if self.counts.get('scenarios_too_large', 0) >= 12:
            left = 0          # the source is beyond this analysis: stop early
        ip.t0, ip.budget = time.time(), min(left, limit)
        try:
            if left <= 0:
                raise Budget
            rets, excs = ip.run(fi, setup=setup, state=ip.modstate)
        except Budget:
            self.count('scenarios_too_large')
            if left <= limit and 'time budget exhausted' not in self.incomplete:
                self.incomplete.append('time budget exhausted')
            return [], []
        self.functions |= ip.reached
        self.count('scenarios')
        self.count('calls_analysed', ip.stats['calls'] - c0)
        self.count('statements_interpreted', ip.stats['stmts'] - s0)
        return rets, excs

    def sequence(self, fi, steps, stubs=None, monitors=(), maxstates=12, **kw):
        """analyse successive calls of fi in one process. steps: list of
        (setup, which) with which in 'ret', 'exc'; yields per step (ip, rets, excs)"""
        left = self.budget - (time.time() - self.t0)
        ip = Interp(self.prog, stubs=stubs or {}, monitors=monitors, maxstates=maxstates, budget=left)
        for k, v in kw.items():
            setattr(ip, k, v)
        ip.load_all()
        ip.t0 = time.time()
        self.roots.append(fi.qual)
        states = [ip.modstate]
        out = []
        for i, (setup, which) in enumerate(steps):
            nxt = []
            allr, alle = [], []
            for s in states:
                try:
                    rets, excs = ip.run(fi, setup=setup, salt=i, state=s)
                except Budget:
                    self.incomplete.append('time budget exhausted in %s' % fi.qual)
                    return ip, out
                allr += rets
                alle += excs
                nxt += [x for x, _ in (rets if which == 'ret' else excs)]
            out.append((allr, alle))
            states = nxt[:40]
        self.functions |= ip.reached
        self.count('call_sequences')
        self.count('calls_analysed', ip.stats['calls'])
        self.count('statements_interpreted', ip.stats['stmts'])
        return ip, out


def stub_any(raises=True, labels=NOL, cls='Exception'):
    def f(ip, st, fi, args, kwargs, node):
        if raises:
            ip.raise_(st, cls, 'stub', node)
        return [(st, V(top(ip.svn(node, 'stub'), frozenset(labels) | ip.arg_labels(st, args, kwargs))))]
    return f


def argvals(ip, st, fi, args, kwargs):
    """parameter name -> Value for a call of fi (defaults not filled in)"""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = {}
    for p, v in zip(pos, args):
        d[p] = v
    for k, v in kwargs.items():
        d[k] = v
    return d


def P(name, labels=()):
    return V(top(('param', name), frozenset(labels)))


def PS(name, labels=()):
    return V(S(('param', name), frozenset(labels)))


class Monitor:
    def __init__(self, ctx):
        self.ctx = ctx

    def on(self, kind, ip, st, node, info):
        m = getattr(self, 'on_' + kind, None)
        if m is not None:
            m(ip, st, node, info)
