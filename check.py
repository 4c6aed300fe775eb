#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's working tree.

Every check is made of jobs:
  trace  the real code is driven (harness/<driver>.py) and what it did is validated by TLC against a trace
         specification (spec/<module>.tla); the verdict of every clause on every line comes from the specification
  mc     TLC explores a model exhaustively and checks the property on it
  mbt    TLC explores a model and writes out its transitions, which are replayed in the real code
  apa    Apalache proves an inductive invariant
Exit 0: held; 1: violated (with a VIOLATION line); 2: the machinery failed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
import plan  # noqa: E402


class Failure(Exception):
    """the machinery could not give an answer"""


class Ctx:

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.replays = os.path.join(HERE, 'evidence', 'replays', prop)
        self.cls = os.path.join(self.scratch, 'cls')
        self.bad, self.known = [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, clauses_checked=0,
                        replayed_transitions=0, obligations_proved=0, jobs=[], samples=[])
        self.limit = 780 if tier == 'quick' else 7200


def sh(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors='replace', check=False)
    except subprocess.TimeoutExpired as ex:
        return subprocess.CompletedProcess(cmd, -9, (ex.stdout or b'').decode('utf8', 'replace')
                                           if isinstance(ex.stdout, bytes) else (ex.stdout or ''), None)


def build(ctx):
    os.makedirs(ctx.cls)
    r = sh(['javac', '-cp', JARS, '-d', ctx.cls, os.path.join(HERE, 'java', 'BigInt.java')], timeout=200)
    if r.returncode != 0:
        raise Failure('javac: ' + r.stdout)


def tlc(ctx, module, cfg, tag, env=None, workers=1, timeout=600, extra=(), heap='2500m'):
    d = os.path.join(ctx.scratch, 'tlc-' + tag)
    os.makedirs(d, exist_ok=True)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + d, '-cp', f'{ctx.cls}:{JARS}', 'tlc2.TLC', '-metadir', d, '-workers', str(workers), '-nowarning',
           *extra, '-config', cfg, os.path.join(SPEC, module + '.tla')]
    r = sh(cmd, env=env, cwd=SPEC, timeout=timeout)
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r, gen, dist


def replay_file(ctx, name, data):
    os.makedirs(ctx.replays, exist_ok=True)
    p = os.path.join(ctx.replays, name + '.json')
    with open(p, 'w', encoding='utf8') as f:
        json.dump(data, f, indent=1)
    return p


# ------------------------------------------------------------------------------------------------ jobs
def drive(ctx, tag, args, timeout):
    """run a driver of the real code in its own process"""
    env = dict(PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    d = os.path.join(ctx.scratch, 'cwd-' + tag)
    os.makedirs(d, exist_ok=True)
    r = sh([PY, '-W', 'ignore', os.path.join(HERE, 'harness', 'main.py'), *args], env=env, cwd=d, timeout=timeout)
    if r.returncode == 0:
        return True
    info = dict(job=tag, args=args, output=r.stdout[-6000:])
    if r.returncode == -9:
        ctx.bad.append((f'{ctx.prop}.hang', replay_file(ctx, tag + '-hang', info)))
        return False
    if r.returncode == 3:  # an exception that came out of the code under test
        ctx.bad.append((f'{ctx.prop}.exception', replay_file(ctx, tag + '-exception', info)))
        return False
    raise Failure(f'driver {tag} failed:\n{r.stdout[-3000:]}')


def decode(o):
    if isinstance(o, dict):
        return {k: decode(v) for k, v in o.items()}
    if isinstance(o, list):
        if o == [0]:
            return 0.0
        if len(o) > 1 and o[0] in (1, -1) and all(isinstance(a, int) for a in o):
            v = o[0] * sum(a << (15 * i) for i, a in enumerate(o[1:]))
            if abs(v) >= 1 << 284:
                return 'nan'
            return v / 2**75 if abs(v) < 1 << 275 else ('inf' if v > 0 else '-inf')
        return [decode(a) for a in o]
    return o


def known_site(ctx, clause, ev):
    for k in plan.KNOWN:
        if k.get('kind') == 'finding' and k['property'] == ctx.prop and k['clause'] == clause and k['site'] == ev.get('site'):
            return k
    return None


def job_trace(ctx, j, chunk):
    tag = f"{j['driver']}-{j['module']}-{chunk}"
    path = os.path.join(ctx.scratch, tag + '.ndjson')
    out = os.path.join(ctx.scratch, tag + '.out')
    seed = f'{ctx.seed}.{chunk}'
    args = [j['driver'], ctx.prop, seed, str(j['n']), path]
    if not drive(ctx, tag, args, ctx.limit * 0.6):
        return
    r, gen, dist = tlc(ctx, j['module'], j.get('cfg', 'Trace.cfg'), tag, env=dict(TRACE=path, OUT=out), timeout=ctx.limit * 0.8)
    if r.returncode != 0 or not os.path.exists(out):
        keep = replay_file(ctx, tag + '-tlc', dict(output=r.stdout[-8000:]))
        raise Failure(f'TLC could not validate {tag} (see {keep}):\n' + r.stdout[-2500:])
    with open(out, encoding='utf8') as f:
        res = json.load(f)
    with open(path, encoding='utf8') as f:
        lines = f.read().splitlines()
    if res['lines'] != len(lines) or gen < len(lines):
        raise Failure(f'TLC consumed {res["lines"]} of {len(lines)} lines of {tag}')
    if res['clauses'] == 0:
        raise Failure(f'{tag}: no clause was evaluated')
    c = ctx.cov
    c['states'] += dist
    c['transitions'] += gen
    c['traces_validated_against_impl'] += 1
    c['events_validated'] += len(lines)
    c['clauses_checked'] += res['clauses']
    hist = {}
    for ln in lines:
        e = json.loads(ln)
        hist[e['ev']] = hist.get(e['ev'], 0) + 1
    c['jobs'].append(dict(kind='trace', module=j['module'], driver=j['driver'], seed=seed, events=hist, clauses=res['clauses']))
    if len(c['samples']) < 3:
        pick = [i for i, ln in enumerate(lines) if '"ev":"cfg"' not in ln][:200]
        if pick:
            c['samples'].append(dict(trace=tag, line=pick[len(pick) // 2] + 1,
                                     event=shorten(decode(json.loads(lines[pick[len(pick) // 2]])))))
    gaps = [b for b in res['bad'] if b['clause'].startswith('GAP')]
    if gaps:
        e = decode(json.loads(lines[gaps[0]['line'] - 1]))
        raise Failure(f'{tag}: the driver and the specification disagree on an input: {gaps[0]} {str(e)[:1500]}')
    seen = {}
    for b in res['bad']:
        if not b['clause'].startswith(ctx.prop + '.'):
            continue
        e = json.loads(lines[b['line'] - 1])
        k = known_site(ctx, b['clause'], e)
        if k is not None:
            if k not in ctx.known:
                ctx.known.append(k)
            continue
        seen[b['clause']] = seen.get(b['clause'], 0) + 1
        if seen[b['clause']] > 2:
            continue
        cfg = None
        if isinstance(e.get('k'), int):
            for ln in lines:
                x = json.loads(ln)
                if x['ev'] == 'cfg' and x.get('id') == e['k']:
                    cfg = decode(x)
        p = replay_file(ctx, f"{tag}-{b['clause']}-{b['line']}",
                        dict(clause=b['clause'], line=b['line'], event=decode(e), config=cfg, module=j['module'],
                             rerun=f"VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} python3 {HERE}/check.py {ctx.prop}",
                             driver_args=args[:-1], preceding=[decode(json.loads(x)) for x in lines[max(0, b['line'] - 6):b['line'] - 1]]))
        ctx.bad.append((b['clause'], p))
    os.unlink(path)


def shorten(o, depth=0):
    if isinstance(o, dict):
        return {k: shorten(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        return [shorten(v, depth + 1) for v in o[:24]]
    if isinstance(o, float):
        return float('%.9g' % o)
    return o


def write_cfg(ctx, tag, base, consts, props, invs, more=''):
    """an instance of a model: constants, and which properties to check"""
    out = os.path.join(ctx.scratch, tag + '.cfg')
    txt = base
    txt += 'CONSTANTS\n' + ''.join(f'  {k} {"<-" if isinstance(v, str) and v[:1].isalpha() and v not in ("TRUE", "FALSE") else "="} {v}\n'
                                   for k, v in consts.items()) if consts else ''
    if props:
        txt += 'PROPERTIES ' + ' '.join(props) + '\n'
    if invs:
        txt += 'INVARIANTS ' + ' '.join(invs) + '\n'
    txt += more
    with open(out, 'w', encoding='utf8') as f:
        f.write(txt)
    return out


def job_mc(ctx, j, chunk):
    tag = f"mc-{j['module']}-{chunk}"
    cfg = write_cfg(ctx, tag, j['base'], j.get('consts', {}), j.get('props', []), j.get('invs', []))
    env, out = {}, None
    if j.get('replay'):
        out = os.path.join(ctx.scratch, tag + '.log')
    r, gen, dist = tlc(ctx, j['module'], cfg, tag, env=env, workers=j.get('workers', 1), timeout=ctx.limit * 0.9,
                       extra=j.get('extra', ()))
    if r.returncode != 0:
        raise Failure(f'model {tag} failed:\n' + r.stdout[-3000:])
    if dist == 0:
        raise Failure(f'model {tag} explored nothing')
    c = ctx.cov
    c['states'] += dist
    c['transitions'] += gen
    rec = dict(kind='mc', module=j['module'], consts={k: str(v) for k, v in j.get('consts', {}).items()},
               checked=j.get('props', []) + j.get('invs', []), distinct_states=dist, states_generated=gen, exhaustive=True)
    c['jobs'].append(rec)
    if not out:
        return
    n = 0
    with open(out, 'w', encoding='utf8') as f:
        for ln in r.stdout.splitlines():
            m = re.match(r'^<<"T", "(.*)">>$', ln)
            if m:
                f.write(m.group(1).replace('\\"', '"').replace('\\\\', '\\') + '\n')
                n += 1
    if n == 0:
        raise Failure(f'model {tag} wrote no transitions')
    res = os.path.join(ctx.scratch, tag + '.res')
    if not drive(ctx, tag, [j['replay'], ctx.prop, f'{ctx.seed}.{chunk}', out, res], ctx.limit * 0.9):
        return
    with open(res, encoding='utf8') as f:
        d = json.load(f)
    if d['replayed'] == 0:
        raise Failure(f'{tag}: nothing was replayed')
    c['replayed_transitions'] += d['replayed']
    c['traces_validated_against_impl'] += d['replayed']
    rec.update(replayed_in_code=d['replayed'])
    if len(c['samples']) < 3 and d.get('sample') is not None:
        c['samples'].append(dict(model=tag, transition=d['sample']))
    for i, b in enumerate(d['bad'][:5]):
        ctx.bad.append((b['clause'], replay_file(ctx, f'{tag}-{i}', b)))


def job_apa(ctx, j, chunk):
    tag = f"apa-{j['module']}-{chunk}"
    d = os.path.join(ctx.scratch, tag)
    os.makedirs(d, exist_ok=True)
    for step in j['steps']:
        cmd = ['apalache-mc', 'check', '--out-dir=' + d, '--length=' + str(step['length']), '--init=' + step['init'],
               '--inv=' + step['inv'], '--next=' + step.get('next', 'Next')]
        if 'cinit' in step:
            cmd.append('--cinit=' + step['cinit'])
        r = sh(cmd + [os.path.join(SPEC, j['module'] + '.tla')], env=dict(JVM_ARGS='-Xmx3g', TMPDIR=d), cwd=d, timeout=ctx.limit * 0.9)
        if 'The outcome is: NoError' not in r.stdout:
            raise Failure(f'apalache {tag} {step}: ' + r.stdout[-2500:])
        ctx.cov['obligations_proved'] += 1
    ctx.cov['jobs'].append(dict(kind='apalache', module=j['module'], steps=j['steps']))


KINDS = dict(trace=job_trace, mc=job_mc, apa=job_apa)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ctx = Ctx(prop, tier, seed)
    shutil.rmtree(ctx.replays, ignore_errors=True)
    fails = []
    try:
        build(ctx)
        work = []
        for j in plan.jobs(prop, tier):
            for k in range(j.get('chunks', 1)):
                work.append((j, j.get('name', k)))
        work.sort(key=lambda w: w[0]['kind'] == 'trace')
        with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as pool:
            futs = [pool.submit(KINDS[j['kind']], ctx, j, k) for j, k in work]
            for f in futs:
                try:
                    f.result()
                except Failure as e:
                    fails.append(str(e))
    except Failure as e:
        fails.append(str(e))
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    ctx.cov['jobs'].sort(key=lambda x: json.dumps(x, sort_keys=True, default=str))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=ctx.cov, wall_s=round(time.time() - t0, 2),
              assumptions=plan.assumptions(prop), violations=len(ctx.bad))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for clause, p in ctx.bad:
        print(f'clause {clause} does not hold:')
        print(f'VIOLATION property={prop} replay={p}')
    for e in fails:
        print('ERROR ' + e, file=sys.stderr)
    c = ctx.cov
    print(f"{prop} {tier}: {c['states']} states, {c['traces_validated_against_impl']} traces, {c['events_validated']} events, "
          f"{c['clauses_checked']} clauses, {c['replayed_transitions']} replayed, {len(ctx.bad)} violations, {time.time() - t0:.1f} s")
    if ctx.bad:
        sys.exit(1)
    sys.exit(2 if fails else 0)


if __name__ == '__main__':
    main()
