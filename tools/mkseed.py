"""Make /verif/seeded/<id> from tools/seeds.py: patch.diff, demo.sh, demo.py, meta.json.

    python3 tools/mkseed.py ID ...   (no argument: all)   [-t: also run the test-suite]
Each one is confirmed in a scratch copy: the demo passes without and fails with the
change and, with -t, the repository's stable tests still pass."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'selftest'))
from seeds import SEEDS  # noqa: E402
SHORT = {'A': 'references/api.py', 'E': 'references/engine.py', 'T': 'references/tag.py', 'K': 'references/kbs.py',
         'X': 'references/text.py', 'P': 'references/pdf.py', 'D': 'documents/pdf.py', 'DT': 'documents/text.py',
         'R': 'references/record.py', 'RE': 'references/regexs.py', 'F': 'references/find.py', 'S': 'extract.py',
         'C': 'references/config.py', 'AU': 'authors/regexs.py'}
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
'''


def one(sid, prop, needs, breaks, edits, demo, tests):
    out = []
    d = tempfile.mkdtemp(prefix='refx_seed_')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        dst = os.path.join(VERIF, 'seeded', sid)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + '/demo.sh', 'w').write(SH)
        os.chmod(dst + '/demo.sh', 0o755)
        open(dst + '/demo.py', 'w').write(demo.strip('\n') + '\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(dst + '/meta.json', 'w'), indent=1)

        def rundemo():
            return subprocess.run(['bash', dst + '/demo.sh'], cwd=d + '/r', stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, timeout=300)
        p = rundemo()
        if p.returncode != 0:
            out.append('demo fails on the unchanged tree: %s' % p.stdout[-1500:])
        for f, a, b in edits:
            q = os.path.join(d, 'r/refextract', SHORT[f])
            s = open(q).read()
            if s.count(a) < 1:
                return sid, ['edit does not apply: %s %r' % (f, a)]
            open(q, 'w').write(s.replace(a, b, 1))
        diff = subprocess.run(['git', 'diff'], cwd=d + '/r', stdout=subprocess.PIPE, text=True).stdout
        open(dst + '/patch.diff', 'w').write(diff)
        p = rundemo()
        if p.returncode == 0:
            out.append('demo passes with the change')
        else:
            out.append('ok demo: ' + (p.stdout.strip().splitlines() or ['?'])[-1][:150])
        bl = subprocess.run(['git', 'blame', '--line-porcelain', 'HEAD', '--'], cwd=d + '/r', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if tests:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=d + '/r', LANG='C.UTF-8', LC_ALL='C.UTF-8')
            w = d + '/w'
            os.makedirs(w)
            subprocess.run(['cp', '-a', d + '/r/tests', d + '/r/pyproject.toml', w], check=True)
            subprocess.run([PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider', '--rootdir', w, '--timeout=300',
                            '-m', 'not vcr', '-o', 'junit_family=xunit2', '--junitxml=' + w + '/junit.xml', 'tests'], cwd=w, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', w + '/o.json', 'junit:' + w + '/junit.xml'], cwd=w, stdout=subprocess.DEVNULL)
            res = json.load(open(w + '/o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = base.get('stable') or base.get('passed') or base.get('tests')
            passed = set(res['passed'])
            miss = [t for t in stable if t not in passed]
            out.append('tests: %d stable tests fail %s' % (len(miss), miss[:4]) if miss else 'ok tests')
    finally:
        shutil.rmtree(d)
    return sid, out


def main():
    ids = [a for a in sys.argv[1:] if a[0] != '-']
    tests = '-t' in sys.argv
    jobs = [s for s in SEEDS if not ids or s[0] in ids]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for sid, out in ex.map(lambda s: one(*s, tests), jobs):
            print(sid, '; '.join(out))


main()
