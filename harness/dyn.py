"""Drivers for the properties of the stepping machinery, C04, C05, C06, C10, C11: see spec/TrDyn.tla."""
import math

import syn
from lib import *  # noqa: F401,F403
from lib import ACT, Called, Config, DIM, Rng, Trace, fx, fxm, fxv, np, rand_config, rand_state, rand_u
from life import cfg_dim, cfg_m, clip, state_of, u_of
from veh import duration as veh_duration
from veh import good, reaches_limit


def safe(v, n):
    g = good(v, n)
    return fxv(g) if g is not None else []


class Drv:

    def __init__(self, path, rng):
        self.tr, self.rng, self.k = Trace(path), rng, 0

    def cfg(self, cfg):
        self.k += 1
        meth = 'RK45' if cfg.method is None else cfg.method
        self.tr.add('cfg', id=self.k, cls=cfg.cls, p=cfg.enc(), meth=meth, samples=cfg.samples, kind=getattr(cfg, 'kind', ''))
        return self.k


def law(p, t, x, u):
    """python copy of the synthetic rate law with its limits, used only to choose inputs"""
    lo, hi = np.array(p['smin']), np.array(p['smax'])
    a = np.clip(x, lo, hi)
    d = np.array(p['A']) @ a + (np.array(p['B']) + math.sin(a[0]) * np.array(p['E'])) @ u + np.array(p['c']) * t + np.array(
        p['S']) @ np.sin(a)
    d = np.clip(d, p['dmin'], p['dmax'])
    d = np.where(x <= lo, np.maximum(d, 0), d)
    return np.where(x >= hi, np.minimum(d, 0), d)


def smooth(cfg, x, u, h):
    """0: a component arrives at a limit from inside, so the limited law jumps along the step; 1: it is continuous but a limit
    starts or stops to bind; 2: smooth"""
    if cfg.cls != 'syn':
        return 2 * (not reaches_limit(cfg, [float(v) for v in x], list(u), h))
    if h > 0.3:
        return 0
    p, n = cfg.p, 400
    lo, hi = np.array(p['smin']), np.array(p['smax'])
    x, u = np.array(x, dtype=float), np.array(clip(cfg, u))
    inside = (x > lo) & (x < hi)
    out, binds = 2, None
    for i in range(n):
        d = law(p, h * i / n, x, u)
        stuck = ((x <= lo) | (x >= hi)) & (d == 0)
        x = x + h / n * d
        now = (x > lo + 1e-3) & (x < hi - 1e-3)
        if np.any(inside & ~now):
            return 0
        inside = inside | (now & ~stuck)
        raw = law(dict(p, smin=-np.inf, smax=np.inf, dmin=-np.inf, dmax=np.inf), h * i / n, np.clip(x, lo, hi), u)
        if np.any(((x <= lo) & (np.abs(raw) < 2e-3)) | ((x >= hi) & (np.abs(raw) < 2e-3))):
            return 0  # at a limit with hardly any push: it may leave at any moment
        b = np.concatenate([raw < p['dmin'], raw > p['dmax'], x <= lo, x >= hi])
        if binds is not None and np.any(b != binds):
            out = 1
        binds = b
    return out


def fix_wrap(cfg, rng):
    """limits of a wrapped component must lie inside the range it is wrapped to"""
    p = cfg.p
    for i, c in enumerate(p['wrap']):
        if math.isnan(c) or not (math.isfinite(p['smin'][i]) or math.isfinite(p['smax'][i])):
            continue
        for k, s in (('smin', -1), ('smax', 1)):
            if k in p['scalar']:
                p['scalar'] = [x for x in p['scalar'] if x != k]
        p['smin'], p['smax'] = list(p['smin']), list(p['smax'])
        p['smin'][i], p['smax'][i] = c - rng.uniform(.5, 3), c + rng.uniform(.5, 3)
    return cfg


def some(rng, method=None, veh=0.4, limits=True, kind=None, jax=False):
    if rng.random() < veh and not jax:
        return rand_config(rng.choice(ACT), rng, method=method)
    if jax and rng.random() < .3:
        c = rand_config('rot2d', rng, method=method)
        c.jax = True
        return c
    cfg = fix_wrap(syn.rand_syn(rng, kind=kind, method=method, limits=limits), rng)
    cfg.jax = jax
    if rng.random() < .2:  # only one side limited
        side = rng.choice(['smin', 'smax', 'dmin', 'dmax'])
        off = -math.inf if side.endswith('min') else math.inf
        cfg.p[side] = [off if math.isnan(w) or side[0] == 'd' else v for v, w in zip(cfg.p[side], cfg.p['wrap'])]
        if len(set(cfg.p[side])) > 1:
            cfg.p['scalar'] = [v for v in cfg.p['scalar'] if v != side]
    if rng.random() < .15:  # every component is an angle
        p = cfg.p
        free = [not (math.isfinite(p['smin'][i]) or math.isfinite(p['smax'][i])) for i in range(cfg.dim)]
        if cfg.kind != 'lin':
            p['wrap'] = [rng.choice([0.0, 1.0, -7.0, 3.5]) if f and math.isnan(w) else w for f, w in zip(free, p['wrap'])]
            p['A'] = [[0.0 if not math.isnan(p['wrap'][j]) else a for j, a in enumerate(r)] for r in p['A']]
    return cfg


def make(cfg, x, **kw):
    if getattr(cfg, 'jax', False) and cfg.cls != 'syn':
        kw['use_jax'] = True
    return cfg.make(list(x), **kw)


def duration(cfg, rng):
    if cfg.cls == 'syn':
        return rng.choice([0.02, 0.05, 0.1, 0.2])
    return veh_duration(cfg, rng)


# ------------------------------------------------------------------------------------------------ events
def dot(d, k, cfg, ent):
    rng = d.rng
    x = np.array(state_of(cfg, rng, rng.choice(['in', 'at', 'out', 'any'])))
    u = np.array(clip(cfg, u_of(cfg, rng, 'mixed')), dtype=float)
    t = rng.choice([0.0, 0.0, rng.uniform(0, 5)])
    r = Called(lambda: ent.dynamics.compute_state_dot(t, x.copy(), u.copy()))
    n = cfg_dim(cfg)
    j = getattr(cfg, 'jax', False)
    r2 = Called(lambda: ent.dynamics.compute_state_dot_jax(x.copy(), t, u.copy()))
    d.tr.add('dot', k=k, t=fx(t), x=fxv(x), u=fxv(u), err=r.err or r2.err, d=safe(r.value, n), dj=safe(r2.value, n), jax=j)


def form(d, k, cfg, ent):
    """published f(x) and g(x) of control-affine dynamics"""
    rng, dyn, n, m = d.rng, ent.dynamics, cfg_dim(cfg), cfg_m(cfg)
    x = np.array(state_of(cfg, rng, rng.choice(['in', 'in', 'out'])))
    u = np.array(clip(cfg, u_of(cfg, rng, 'mixed')), dtype=float)
    lo, hi = cfg.slim()
    a = np.clip(x, lo, hi)
    r = Called(lambda: (np.array(dyn.state_transition_system(a.copy()), dtype=float), np.array(dyn.state_transition_input(a.copy()), dtype=float),
                        dyn.compute_state_dot(0.0, x.copy(), u.copy())))
    f, g, dd = [], [], []
    err = r.err
    if not err:
        f, g, dd = r.value
        if f.shape != (n, ) or g.shape != (n, m):
            err = 'shape'
        f, g, dd = safe(f, n), fxm(g) if not err else [], safe(dd, n)
    A, B = [], []
    if not err and hasattr(dyn, 'A') and hasattr(dyn, 'B'):
        A, B = fxm(np.array(dyn.A)), fxm(np.array(dyn.B))
    d.tr.add('form', k=k, x=fxv(x), u=fxv(u), err=err, f=f, g=g, d=dd, A=A, B=B, lin=len(A) == n)


def step(d, k, cfg, h=None, hist=1, where=None, uw='mixed', pert=None, viadyn=False, x0=None):
    """steps of an entity (or of its dynamics) from a given state"""
    rng = d.rng
    x = list(x0) if x0 is not None else state_of(cfg, rng, where or rng.choice(['in', 'in', 'at', 'out']))
    r = Called(lambda: make(cfg, x))
    n = cfg_dim(cfg)
    if r.err:
        d.tr.add('step', k=k, err=r.err, msg=r.msg)
        return None
    ent = r.value
    for _ in range(hist):
        hh = duration(cfg, rng) if h is None else h
        if pert:
            ent.state = np.array(state_of(cfg, rng, pert))
        x = np.array(ent.state, dtype=float)
        u = u_of(cfg, rng, uw)
        judge = 2 if cfg.method == 'Euler' else 0 if h else smooth(cfg, x, u, hh)  # (no oracle for long adaptive steps)
        if cfg.method != 'Euler' and cfg.cls.startswith('dub'):
            ulo, uhi = cfg.ulim()
            hh = min(hh, 0.15 * max(x[-1], cfg.prm['vmin']) / max(abs(min(max(u[-1], ulo[-1]), uhi[-1])), 1e-3))
        ua = np.array(u, dtype=float)
        if viadyn:
            uc = np.array(clip(cfg, u))
            r = Called(lambda: ent.dynamics.step(hh, x.copy(), uc))
            y, dd = r.value if not r.err else (None, None)
            if not r.err:
                ent.state = np.array(y)
        else:
            r = Called(lambda: ent.step(hh, ua) if len(u) else ent.step(hh))
            y, dd = ent.state, ent.state_dot
        if r.err or good(y, n) is None or good(dd, n) is None:
            d.tr.add('step', k=k, err=r.err or 'shape', msg=r.msg)
            return None
        d.tr.add('step', k=k, err='', h=fx(hh), x=fxv(x), u=fxv(u), y=fxv(y), d=fxv(dd), judge=judge > 0, kink=judge == 1, long=bool(hh > 40))
    return ent


def long_step(d):
    """seconds-long adaptive steps of an unlimited law that mentions time"""
    rng = d.rng
    cfg = syn.rand_syn(rng, kind='gen', method=rng.choice(['RK45', 'RK45', 'RK45', 'Euler']), limits=False)
    p = cfg.p
    p['c'] = [rng.uniform(-.5, .5) for _ in p['c']]
    p['A'] = [[.5 * a for a in r] for r in p['A']]
    p['S'] = [[0.0] * len(r) for r in p['S']]
    p['E'] = [[0.0] * len(r) for r in p['E']]
    k = d.cfg(cfg)
    x = np.array(state_of(cfg, rng, 'in'))
    r = Called(lambda: make(cfg, x))
    ent = r.value
    n = cfg_dim(cfg)
    for _ in range(3):
        h = rng.choice([0.5, 1.5, 2.5, rng.uniform(1, 4)])
        x = np.array(ent.state, dtype=float)
        u = u_of(cfg, rng, 'mixed')
        r = Called(lambda: ent.step(h, np.array(u, dtype=float)))
        if r.err or good(ent.state, n) is None:
            d.tr.add('step', k=k, err=r.err or 'shape', msg=r.msg)
            return
        d.tr.add('step', k=k, err='', h=fx(h), x=fxv(x), u=fxv(u), y=fxv(ent.state), d=fxv(ent.state_dot), judge=True, kink=True, long=False)


def split(d, k, cfg):
    """one step of h1 + h2 against two steps, for laws that do not mention time"""
    rng = d.rng
    h = duration(cfg, rng)
    h1 = h * rng.choice([0.5, 0.25, 0.9, 0.37])
    x = state_of(cfg, rng, 'in')
    for _ in range(20):
        u = u_of(cfg, rng, 'in')
        s = smooth(cfg, np.array(x), u, h)
        if s:
            break
    else:
        return
    if cfg.cls.startswith('dub'):
        h = min(h, 0.15 * x[-1] / max(abs(u[-1]), 1e-3))
        h1 = min(h1, h * .5)
    a, b = make(cfg, x), make(cfg, x)
    ua = np.array(u, dtype=float)

    def go():
        a.step(h, ua)
        b.step(h1, ua)
        b.step(h - h1, ua)
        return a.state, b.state

    r = Called(go)
    n = cfg_dim(cfg)
    p = lambda i: safe(r.value[i], n) if not r.err else []  # noqa: E731
    d.tr.add('split', k=k, kink=s == 1, err=r.err, h=fx(h), x=fxv(x), u=fxv(u), a=p(0), b=p(1))


def matrices(d):
    from safe_autonomy_dynamics.cwh.point_model import generate_cwh_matrices
    from safe_autonomy_dynamics.integrators import generate_dynamics_matrices
    rng = d.rng
    m, n, damp = 10**rng.uniform(-2, 3), 10**rng.uniform(-4, 0), rng.choice([0.0, rng.uniform(0, 3)])
    bad = ['1D', '4d', '', '2D', 'xy', None, 2, '3d ', '0d', '12d']
    for gen, modes in (('cwh', ['2d', '3d']), ('int', ['1d', '2d', '3d'])):
        for mode in modes + [rng.choice(bad + (['1d'] if gen == 'cwh' else []))] + [None]:
            if gen == 'cwh':
                r = Called(lambda: generate_cwh_matrices(m, n, mode) if mode != 'default' else generate_cwh_matrices(m, n))
            else:
                r = Called(lambda: generate_dynamics_matrices(m, damp, mode))
            A, B = ([], []) if r.err else (fxm(r.value[0]), fxm(r.value[1]))
            d.tr.add('mat', gen=gen, mode=str(mode), err=r.err, m=fx(m), n=fx(n), damp=fx(damp), A=A, B=B)
    r = Called(lambda: generate_cwh_matrices(m, n))
    d.tr.add('mat', gen='cwh', mode='2d', err=r.err, m=fx(m), n=fx(n), damp=fx(damp), A=fxm(r.value[0]), B=fxm(r.value[1]))
    r = Called(lambda: generate_dynamics_matrices(m))
    d.tr.add('mat', gen='int', mode='1d', err=r.err, m=fx(m), n=fx(n), damp=fx(0.0), A=fxm(r.value[0]), B=fxm(r.value[1]))


def shapes(d):
    """matrices of every small shape: only the consistent ones make linear dynamics"""
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    rng = d.rng

    def shape():
        return [rng.randint(1, 4) for _ in range(rng.choice([2, 2, 2, 2, 1, 3]))]

    for _ in range(12):
        a, b = shape(), shape()
        if rng.random() < .6:
            a = [a[0], a[0]]
        if rng.random() < .4 and len(b) >= 1:
            b[0] = a[-1]
        r = Called(lambda: BaseLinearODESolverDynamics(A=np.ones(a), B=np.ones(b)))
        d.tr.add('shape', a=a, b=b, err=r.err)


# ------------------------------------------------------------------------------------------------ per property
def run(prop, seed, n, path):
    rng = Rng(f'{prop}-{seed}')
    d = Drv(path, rng)
    for i in range(n):
        if prop == 'C04':
            meth = rng.choice(['Euler', 'Euler', 'RK45'])
            cfg = some(rng, meth)
            k = d.cfg(cfg)
            for _ in range(2):
                step(d, k, cfg, hist=3, uw=rng.choice(['mixed', 'out', 'in']), viadyn=rng.random() < .3)
            if meth == 'Euler':
                step(d, k, cfg, h=rng.choice([1.0, 60.0, 3600.0, 1e6]), hist=2, pert='any')
            elif cfg.cls in ('cwh', 'rot2d', 'sixdof', 'dub3', 'dub2', 'int2'):
                step(d, k, cfg, h=rng.choice([1.0, 10.0, 30.0]), hist=2, uw=rng.choice(['mixed', 'in']))
            else:
                step(d, k, cfg, h=rng.choice([1.0, 3.0]), hist=2)
            if i % 12 == 0:
                cfg = some(rng, 'RK45_JAX', jax=True)
                k = d.cfg(cfg)
                step(d, k, cfg, hist=3, where=rng.choice(['at', 'out', 'in']))
        elif prop == 'C05':
            meth = rng.choice(['Euler', 'Euler', 'RK45'])
            cfg = some(rng, meth, veh=.25, kind=rng.choice(['gen', 'aff']))
            if cfg.cls in ('int1', 'int2', 'int3', 'cwh', 'sixdof'):
                cfg = rand_config(rng.choice(['rot2d', 'dub2', 'dub3']), rng, method=meth)
            k = d.cfg(cfg)
            step(d, k, cfg, hist=4, where=rng.choice(['in', 'out']), pert=rng.choice([None, 'out']))
            seam(d, k, cfg)
            if meth == 'Euler':
                step(d, k, cfg, h=rng.choice([5.0, 60.0, 2000.0]), hist=2, where='in', pert='any')
            if i % 12 == 0:
                cfg = some(rng, 'RK45_JAX', jax=True, limits=False)
                k = d.cfg(cfg)
                step(d, k, cfg, hist=3, where=rng.choice(['out', 'in']))
        elif prop == 'C06':
            cfg = some(rng, rng.choice(['Euler', 'RK45']))
            k = d.cfg(cfg)
            ent = make(cfg, state_of(cfg, rng, 'in'))
            for _ in range(8):
                dot(d, k, cfg, ent)
            step(d, k, cfg, hist=3, where=rng.choice(['in', 'at', 'out']), pert=rng.choice([None, None, 'any']))
            if i % 12 == 0:
                cfg = some(rng, 'RK45_JAX', jax=True)
                k = d.cfg(cfg)
                step(d, k, cfg, hist=2, where=rng.choice(['at', 'out', 'in']))
        elif prop == 'C10':
            meth = rng.choice(['Euler', 'RK45', 'RK45'])
            cfg = some(rng, meth)
            k = d.cfg(cfg)
            step(d, k, cfg, hist=3, where='in', uw=rng.choice(['in', 'mixed']), viadyn=rng.random() < .3)
            if cfg.cls == 'syn':
                step(d, k, cfg, hist=2, where=rng.choice(['at', 'out']), pert='any')
            step(d, k, cfg, h=0.0, hist=2, where=rng.choice(['in', 'at']), uw='mixed')
            if i % 3 == 0:
                long_step(d)
            if meth == 'RK45' and (cfg.cls != 'syn' or not any(cfg.p['c'])):
                split(d, k, cfg)
            if i % 10 == 0:
                cfg = some(rng, 'RK45_JAX', jax=True)
                k = d.cfg(cfg)
                step(d, k, cfg, hist=3, where=rng.choice(['in', 'in', 'at']))
                step(d, k, cfg, h=0.0, where='in')
        elif prop == 'C11':
            cfg = some(rng, 'Euler', kind=rng.choice(['aff', 'lin', 'lin']))
            k = d.cfg(cfg)
            ent = make(cfg, state_of(cfg, rng, 'in'))
            for _ in range(6):
                form(d, k, cfg, ent)
            step(d, k, cfg, hist=2)
            form(d, k, cfg, ent)
            if i % 3 == 0:
                matrices(d)
                shapes(d)
    d.tr.close()
    return d.tr


def seam(d, k, cfg):
    """states at or next to where a wrapped angle jumps"""
    rng = d.rng
    wrap = cfg.p['wrap'] if cfg.cls == 'syn' else dict(rot2d=[math.nan] * 2 + [0.0] + [math.nan] * 3,
                                                       dub2=[math.nan] * 2 + [0.0, math.nan],
                                                       dub3=[math.nan] * 3 + [0.0, math.nan, math.nan, math.nan])[cfg.cls]
    for i, c in enumerate(wrap):
        if math.isnan(c):
            continue
        lo, hi = cfg.slim()
        if math.isfinite(lo[i]) or math.isfinite(hi[i]):
            continue
        x = state_of(cfg, rng, 'in')
        x[i] = c + rng.choice([-1, 1]) * math.pi * rng.choice([1, 1, 3, 5]) + rng.choice([0.0, 1e-6, -1e-6, .01, -.01])
        step(d, k, cfg, x0=x, h=rng.choice([0.0, None]), hist=2)
