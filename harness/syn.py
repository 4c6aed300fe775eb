"""Entities written against the base classes, with every limit, default and actuator name a parameter.

rate law: f(t, x, u) = A x + (B + sin(x[0]) E) u + c t + S sin(x)
"""
import math

from lib import *  # noqa: F401,F403
from lib import fx, fxm, fxv, np

_mod = {}


def classes_():
    if _mod:
        return _mod
    from safe_autonomy_dynamics.base_models import (
        BaseControlAffineODESolverDynamics, BaseEntity, BaseLinearODESolverDynamics, BaseODESolverDynamics
    )

    class GenDyn(BaseODESolverDynamics):

        def __init__(self, p, **kw):
            super().__init__(**kw)
            self.p = p

        def _compute_state_dot(self, t, state, control):
            p, m = self.p, self.np
            A, B, E, c, S = p['A'], p['B'], p['E'], p['c'], p['S']
            return A @ state + (B + m.sin(state[0]) * E) @ control + c * t + S @ m.sin(state)

    class AffDyn(BaseControlAffineODESolverDynamics):

        def __init__(self, p, **kw):
            super().__init__(**kw)
            self.p = p

        def state_transition_system(self, state):
            return self.p['A'] @ state + self.p['S'] @ self.np.sin(state)

        def state_transition_input(self, state):
            return self.p['B'] + self.np.sin(state[0]) * self.p['E']

    class SynEntity(BaseEntity):

        def __init__(self, dynamics, init, **kw):
            self.init = init
            super().__init__(dynamics, **kw)

        def _build_state(self):
            return np.array(self.init, dtype=float)

        @property
        def x(self):
            return self._state[0]

        @property
        def y(self):
            return self._state[1]

        @property
        def z(self):
            return 0.0

        @property
        def position(self):
            return self._state[0:1].copy()

        @property
        def orientation(self):
            return None

        @property
        def velocity(self):
            return self._state[1:2].copy()

    _mod.update(gen=GenDyn, aff=AffDyn, lin=BaseLinearODESolverDynamics, ent=SynEntity)
    return _mod


class SynConfig:
    """same interface as lib.Config"""
    cls = 'syn'
    given = {}

    def __init__(self, kind, p, method=None, samples=0, jax=False):
        self.kind, self.p, self.method, self.samples, self.jax = kind, p, method, samples, jax

    @property
    def names(self):
        return self.p['names']

    @property
    def dim(self):
        return len(self.p['smin'])

    def arr(self, key):
        """limits as given to the constructor: a number when the configuration says so"""
        v = self.p[key]
        if key in self.p['scalar']:
            return float(v[0])
        return np.array(v, dtype=float)

    def dynamics(self, keep=None):
        p = self.p
        kw = dict(state_min=self.arr('smin'), state_max=self.arr('smax'), state_dot_min=self.arr('dmin'),
                  state_dot_max=self.arr('dmax'), use_jax=self.jax)
        if any(not math.isnan(v) for v in p['wrap']) or p['wrapgiven']:
            kw['angle_wrap_centers'] = np.array(p['wrap'], dtype=float)
        if self.method is not None:
            kw['integration_method'] = self.method
        if self.samples:
            kw['trajectory_samples'] = self.samples
        mats = {k: np.array(p[k], dtype=float) for k in ('A', 'B', 'E', 'c', 'S')}
        if keep is not None:
            keep.update(mats)
        c = classes_()
        if self.kind == 'lin':
            return c['lin'](A=mats['A'], B=mats['B'], **kw)
        return c[self.kind](mats, **kw)

    def make(self, init=None, name='e', keep=None):
        p = self.p
        return classes_()['ent'](
            self.dynamics(keep), init if init is not None else [0.0] * self.dim, control_default=np.array(p['udef'], dtype=float),
            control_min=self.arr('umin'), control_max=self.arr('umax'),
            control_map={n: i for i, n in self.order()} if p['names'] else None, name=name)

    def order(self):
        """names in an order unrelated to their indices"""
        out = list(enumerate(self.p['names']))
        return out[::-1] if self.p['flip'] else out

    def enc(self):
        p = self.p
        out = {k: fxm(p[k]) for k in ('A', 'B', 'E', 'S')}
        for k in ('c', 'udef', 'umin', 'umax', 'smin', 'smax', 'dmin', 'dmax', 'wrap'):
            out[k] = fxv(p[k])
        out['names'] = p['names']
        return out

    def ulim(self):
        return self.p['umin'], self.p['umax']

    def slim(self):
        return self.p['smin'], self.p['smax']


def rand_syn(rng, kind=None, limits=True, **kw):
    """a random synthetic entity: component 0, 1 free or limited, maybe an angle as the last one"""
    kind = kind or rng.choice(['gen', 'aff', 'lin'])
    n, m = rng.randint(2, 4), rng.randint(1, 3)
    inf = math.inf
    angle = kind != 'lin' and rng.random() < 0.5
    A = [[rng.uniform(-.4, .4) if rng.random() < .6 else 0.0 for _ in range(n)] for _ in range(n)]
    S = [[0.0] * n for _ in range(n)]
    E = [[0.0] * m for _ in range(n)]
    wrap = [math.nan] * n
    if angle:
        w = rng.randrange(n)
        wrap[w] = rng.choice([0.0, math.pi, -1.5, 2.25, 40.0])
        for r in A:
            r[w] = 0.0
        for i in range(n):
            if rng.random() < .5:
                S[i][w] = rng.uniform(-.5, .5)
    B = [[rng.uniform(-1, 1) if rng.random() < .7 else 0.0 for _ in range(m)] for _ in range(n)]
    if kind != 'lin' and rng.random() < .5:
        E = [[rng.uniform(-.5, .5) for _ in range(m)] for _ in range(n)]
    c = [rng.uniform(-.5, .5) if kind == 'gen' and rng.random() < .5 else 0.0 for _ in range(n)]
    scalar = []

    def pair(size, lo, hi, p):
        """independent lower and upper limits"""
        if rng.random() < 0.25:
            a, b = rng.choice([-1, 1, 1]) * 0.0 - rng.uniform(lo, hi), rng.uniform(lo, hi)
            return [a] * size, [b] * size, True
        A_, B_ = [], []
        for _ in range(size):
            A_.append(-rng.uniform(lo, hi) if rng.random() < p else -inf)
            B_.append(rng.uniform(lo, hi) if rng.random() < p else inf)
        return A_, B_, False

    umin, umax, s1 = pair(m, 0.3, 2.0, .75)
    if s1:
        scalar += ['umin', 'umax']
    if rng.random() < .2:  # limits that do not straddle zero
        umin = [-.25 if not math.isfinite(v) else -.25 * abs(v) for v in umin]
        umin = [v + 1.0 for v in umin]
        umax = [max(v, u + .5) if math.isfinite(v) else v for v, u in zip(umax, umin)]
        scalar = [s for s in scalar if s not in ('umin', 'umax')]
    if limits:
        smin, smax, s2 = pair(n, 1.0, 4.0, .5)
        dmin, dmax, s3 = pair(n, 0.2, 2.0, .4)
        if s2:
            scalar += ['smin', 'smax']
        if s3:
            scalar += ['dmin', 'dmax']
        if angle and rng.random() < .7:
            smin[w], smax[w] = -inf, inf
            scalar = [s for s in scalar if s not in ('smin', 'smax')]
    else:
        smin, smax, dmin, dmax = [-inf] * n, [inf] * n, [-inf] * n, [inf] * n
        scalar += ['smin', 'smax', 'dmin', 'dmax']
    udef = [0.0 if rng.random() < .3 else min(max(rng.uniform(-1.2, 1.2), a - .3), b + .3) for a, b in zip(umin, umax)]
    names = ['alpha', 'beta', 'gamma'][:m] if rng.random() < .9 else []
    if rng.random() < .5:
        names = names[::-1]
    p = dict(A=A, B=B, E=E, S=S, c=c, umin=umin, umax=umax, smin=smin, smax=smax, dmin=dmin, dmax=dmax, wrap=wrap,
             wrapgiven=rng.random() < .3, udef=udef, names=names, flip=rng.random() < .5, scalar=scalar)
    return SynConfig(kind, p, **kw)


def syn_state(cfg, rng, where='in'):
    lo, hi = cfg.slim()
    s = []
    for i in range(cfg.dim):
        a = lo[i] if math.isfinite(lo[i]) else -3.0
        b = hi[i] if math.isfinite(hi[i]) else 3.0
        if not math.isnan(cfg.p['wrap'][i]):
            if not math.isfinite(lo[i]) and not math.isfinite(hi[i]):
                a, b = cfg.p['wrap'][i] - 3, cfg.p['wrap'][i] + 3
                if where == 'out':
                    a, b = a - 15, b + 15
                s.append(rng.uniform(a, b))
                continue
        k = where if where != 'any' else rng.choice(['in', 'in', 'at', 'out'])
        if k != 'in' and rng.random() < .4:
            k = 'in'
        fin = [v for v in (lo[i], hi[i]) if math.isfinite(v)]
        if k == 'in' or not fin:
            s.append(rng.uniform(a + .1 * (b - a), b - .1 * (b - a)))
        else:
            e = rng.choice(fin)
            s.append(e if k == 'at' else e + rng.uniform(.05, 1.5) * (1 if e == hi[i] else -1))
    return s


def syn_u(cfg, rng, where='mixed'):
    lo, hi = cfg.ulim()
    out = []
    if rng.random() < .08:
        where = 'tiny'
    for a, b in zip(lo, hi):
        A_ = a if math.isfinite(a) else min(-2.0, b - 2)
        B_ = b if math.isfinite(b) else max(2.0, a + 2)
        k = where if where != 'mixed' else rng.choice(['in', 'in', 'at', 'out', 'far', 'tiny', 'just'])
        if k == 'just':
            e = rng.choice([A_, B_])
            out.append(e + rng.choice([-1, 1]) * abs(e) * 10**rng.uniform(-9, -3))
        elif k == 'tiny':
            out.append(rng.choice([-1, 1]) * 10**rng.uniform(-9, -2))
        elif k == 'in':
            out.append(rng.uniform(A_, B_))
        elif k == 'at':
            out.append(rng.choice([v for v in (a, b) if math.isfinite(v)] or [0.5]))
        elif k == 'out':
            out.append(rng.choice([A_ - rng.uniform(.02, 1), B_ + rng.uniform(.02, 1)]))
        else:
            out.append(rng.choice([-1, 1]) * ((10**rng.uniform(1, 3) if rng.random() < .85 else math.inf) if math.isfinite(a) and math.isfinite(b) else 6.0))
    return out
