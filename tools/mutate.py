"""Random source mutants in scratch clones: those that keep the stable tests passing are shown to the quick checks.

mutate.py COUNT SEED [file-substring ...]   -> one JSON line per surviving mutant
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tryseeds import ENV, ROOT, tests
SRC = '/repo/safe_autonomy_dynamics'
LIFE = ['C08', 'C03', 'C01', 'C02', 'C09', 'C07', 'C04', 'C05', 'C06', 'C10', 'C11']
MAP = [('base_models', LIFE), ('point_model', ['C12', 'C17', 'C18', 'C19', 'C20', 'C11']), ('rotational', ['C13', 'C17', 'C18', 'C19', 'C20', 'C01']),
       ('sixdof', ['C14', 'C17', 'C18', 'C19', 'C20', 'C01']), ('sun', ['C21', 'C18', 'C19']), ('dubins', ['C15', 'C17', 'C18', 'C19', 'C20', 'C01']),
       ('integrators', ['C16', 'C11', 'C18', 'C19', 'C20']), ('/utils.py', ['C19', 'C14', 'C01', 'C11', 'C18']),
       ('cwh/', ['C12', 'C11']), ('low_level_controller', ['C22']), ('controlled_f16', ['C26']), ('conf16', ['C27']), ('clf16', ['C27']),
       ('morelli', ['C25']), ('subf16', ['C26']), ('tgear', ['C23']), ('rtau', ['C23']), ('pdot', ['C23']), ('thrust', ['C23']),
       ('fix', ['C30', 'C24']), ('sign', ['C30', 'C24']), ('aerobench/util', ['C28', 'C29', 'C30']), ('lowlevel/', ['C24'])]

def props(f):
    for k, v in MAP:
        if k in f:
            return v
    return []

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}

def sites(tree):
    out = []
    def walk(node, infn):
        for child in ast.iter_child_nodes(node):
            isfn = isinstance(child, (ast.FunctionDef, ast.Lambda))
            if infn or isfn:
                consider(child)
            walk(child, infn or isfn)
    def consider(n):
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append(('cmp', n))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append(('bin', n))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append(('const', n))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(('bool', n))
        if isinstance(n, ast.BoolOp):
            out.append(('boolop', n))
        if isinstance(n, (ast.If, ast.IfExp)):
            out.append(('cond', n))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            out.append(('drop', n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'array', 'deepcopy', 'clip', 'float') and (n.args or n.func.attr == 'copy'):
            out.append(('unwrap', n))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append(('swap', n))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append(('neg', n))
    walk(tree, False)
    return out

def mutate(tree, rng):
    s = sites(tree)
    if not s:
        return None
    kinds = sorted({k for k, _ in s})
    kind = rng.choice(kinds)
    n = rng.choice([n for k, n in s if k == kind])
    line = n.lineno
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'const':
        v = n.value
        n.value = rng.choice([v + 1, v - 1, -v or 1]) if isinstance(v, int) else rng.choice([v * 1.02, v * 0.5, v + 0.1, -v])
    elif kind == 'bool':
        n.value = not n.value
    elif kind == 'boolop':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == 'cond':
        n.test = ast.Constant(rng.choice([True, False]))
    elif kind == 'neg':
        class R(ast.NodeTransformer):
            def generic_visit(self, m):
                if m is n:
                    return n.operand
                return super().generic_visit(m)
        tree = R().visit(tree)
    elif kind == 'swap':
        i = rng.randrange(len(n.args) - 1)
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif kind in ('drop', 'unwrap'):
        class R(ast.NodeTransformer):
            def generic_visit(self, m):
                if m is n:
                    if kind == 'drop':
                        return ast.copy_location(ast.Pass(), m)
                    return m.func.value if m.func.attr == 'copy' else m.args[0]
                return super().generic_visit(m)
        tree = R().visit(tree)
    return kind, line, ast.fix_missing_locations(tree)

def one(job):
    f, seed = job
    rng = random.Random(seed)
    src = open(f).read()
    tree = ast.parse(src)
    base = ast.unparse(ast.parse(src))
    m = mutate(tree, rng)
    if m is None:
        return None
    kind, line, tree = m
    new = ast.unparse(tree)
    if new == base:
        return None
    a, b = base.splitlines(), new.splitlines()
    import difflib
    diff = [l for l in difflib.unified_diff(a, b, n=0, lineterm='') if l[:1] in '+-' and l[:3] not in ('+++', '---')]
    tmp = tempfile.mkdtemp(prefix='mut_')
    repo = os.path.join(tmp, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    rel = os.path.relpath(f, '/repo')
    open(os.path.join(repo, rel), 'w').write(new + '\n')
    if tests(repo):
        shutil.rmtree(tmp)
        return None
    return dict(file=rel, line=line, kind=kind, diff=diff, repo=repo, tmp=tmp)

def check(r):
    for p in props(r['file']):
        q = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), p, 'quick'], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=r['repo'], VERIF_SEED='1'))
        if q.returncode:
            r['caught'] = p if q.returncode == 1 else f'{p}:{q.returncode}'
            break
    else:
        r['caught'] = ''
    shutil.rmtree(r.pop('tmp'))
    r.pop('repo')
    return r

if __name__ == '__main__':
    n, seed, subs = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    rng = random.Random(seed)
    files = [os.path.join(d, f) for d, _, fs in os.walk(SRC) for f in sorted(fs) if f.endswith('.py')]
    files = sorted(f for f in files if props(f) and (not subs or any(s in f for s in subs)))
    jobs = [(rng.choices(files, [min(os.path.getsize(g), 20000) ** .6 for g in files])[0], f'{seed}.{i}') for i in range(n)]
    with cf.ThreadPoolExecutor(4) as tex, cf.ThreadPoolExecutor(2) as cex:
        futs = []
        for t in cf.as_completed([tex.submit(one, j) for j in jobs]):
            r = t.result()
            if r:
                futs.append(cex.submit(check, r))
        for c in futs:
            print(json.dumps(c.result()), flush=True)
