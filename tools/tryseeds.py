"""Tries planted bugs in scratch copies: demo on both trees, stable tests, and (with --check) the registered quick check."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1')
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def tests(repo):
    out = tempfile.mktemp()
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + out], cwd=repo,
                   env=dict(ENV, PYTHONPATH=repo), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for tc in ET.parse(out).iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    os.unlink(out)
    return [s for s in STABLE if s not in ok]

def one(id, check, dotests):
    d = os.path.join(ROOT, 'seeded', id)
    tmp = tempfile.mkdtemp(prefix='seed_')
    repo = os.path.join(tmp, 'repo')
    r = {'id': id}
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        if dotests:
            r['demo_clean'] = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, env=ENV, capture_output=True).returncode
        subprocess.check_call(['git', '-C', repo, 'apply', d + '/patch.diff'])
        if dotests:
            p = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, env=ENV, capture_output=True, text=True)
            r['demo_patched'] = p.returncode
            r['why'] = p.stderr.strip().splitlines()[-1:] 
            r['broken_tests'] = tests(repo)
        if check:
            prop = json.load(open(d + '/meta.json'))['property']
            ev = os.path.join(tmp, 'verif')
            os.makedirs(ev)
            for n in os.listdir(ROOT):
                if n not in ('.git', 'evidence', 'seeded'):
                    os.symlink(os.path.join(ROOT, n), os.path.join(ev, n))
            p = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), prop, check], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, VP_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            r['check'] = p.returncode
            r['lines'] = [l for l in p.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l.lower()][:3]
    finally:
        shutil.rmtree(tmp)
    return r

if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = 'quick' if '--check' in sys.argv else None
    dotests = '--notest' not in sys.argv
    ids = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with cf.ThreadPoolExecutor(2 if check else 6) as ex:
        for r in ex.map(lambda i: one(i, check, dotests), ids):
            print(json.dumps(r), flush=True)
