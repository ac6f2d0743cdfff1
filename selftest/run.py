"""Apply small edits (bugs and behaviour-preserving refactorings) to a scratch copy
of the package and run the checks on it.

    python3 selftest/run.py [C03 ...]      # bugs of these properties + all refactorings
A bug must be reported by the check of its property, a refactoring by none."""
import concurrent.futures
import warnings
import os
import shutil
import subprocess
import sys
import tempfile

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
from mutants import BUGS, REFACTORINGS  # noqa: E402
from refx.registry import REG  # noqa: E402

SHORT = {'A': 'references/api.py', 'E': 'references/engine.py', 'T': 'references/tag.py', 'K': 'references/kbs.py',
         'X': 'references/text.py', 'P': 'references/pdf.py', 'D': 'documents/pdf.py', 'DT': 'documents/text.py',
         'R': 'references/record.py', 'RE': 'references/regexs.py', 'F': 'references/find.py', 'S': 'extract.py',
         'C': 'references/config.py', 'AU': 'authors/regexs.py'}


def mk(edits):
    d = tempfile.mkdtemp(prefix='refx_mut_')
    shutil.copytree(os.path.join(REPO, 'refextract'), os.path.join(d, 'refextract'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.kb'))
    for f, a, b in edits:
        p = os.path.join(d, 'refextract', SHORT[f])
        s = open(p).read()
        if s.count(a) < 1:
            shutil.rmtree(d)
            raise SystemExit('edit does not apply: %s %r' % (f, a))
        s = s.replace(a, b, 1)
        compile(s, p, 'exec')
        open(p, 'w').write(s)
    return d


def check(pid, d):
    env = dict(os.environ, REFX_REPO=d, REFX_EVIDENCE=os.path.join(d, 'evidence'))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'refx.check', pid], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def job(kind, name, edits, pids):
    d = mk(edits)
    out = []
    try:
        for pid in pids:
            rc, o = check(pid, d)
            ok = (rc == 1) if kind == 'bug' else (rc == 0)
            if 'Traceback' in o or 'INCOMPLETE' in o:
                ok = False if kind == 'ref' or rc == 0 else ok
            out.append((ok, kind, pid, name, rc, o))
    finally:
        shutil.rmtree(d)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    v = '-v' in sys.argv
    pids = [p for p in REG if not args or p in args]
    jobs = []
    if '-r' not in sys.argv:
        for pid, name, edits in BUGS:
            if pid in pids:
                jobs.append(('bug', name, edits, [pid]))
    if '-b' not in sys.argv:
        for name, edits in REFACTORINGS:
            for p in pids:
                jobs.append(('ref', name, edits, [p]))
    bad = n = 0
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for res in ex.map(lambda j: job(*j), jobs):
            for ok, kind, pid, name, rc, o in res:
                n += 1
                if not ok:
                    bad += 1
                if not ok or v:
                    print('%s %s %s %s rc=%d' % ('ok  ' if ok else 'FAIL', kind, pid, name, rc))
                    if not ok and kind == 'ref' or v or 'Traceback' in o:
                        print('    ' + '\n    '.join(o.strip().splitlines()[-8 if v else -3:]))
    print('%d runs, %d not as expected' % (n, bad))


if __name__ == "__main__":
    main()
