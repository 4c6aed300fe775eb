"""Shared parts of the drivers that exercise the real code and record what it does.

Everything observed is written as one JSON object per line; reals are fixed-point integers with 75
fractional bits, as the tuple <<sign, limb, limb, ...>> of 15-bit limbs that spec/BigInt.tla uses.
"""
import json
import math
import os
import random
import sys
import warnings

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
sys.dont_write_bytecode = True
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

HUGE = 1 << (200 + 75)
NAN = 1 << (210 + 75)


def fx_int(x):
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x) or abs(x) >= 2.0**200:
        return HUGE if x > 0 else -HUGE
    m, e = math.frexp(x)
    m = int(m * (1 << 53))
    e = e - 53 + 75
    return m << e if e >= 0 else m >> (-e)


def limbs(n):
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        out.append(n & 32767)
        n >>= 15
    return out


def fx(x):
    return limbs(fx_int(x))


def fxv(v):
    return [fx(x) for x in np.asarray(v, dtype=float).ravel()]


def fxm(m):
    return [[fx(x) for x in row] for row in np.asarray(m, dtype=float)]


class Trace:

    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0
        self.hist = {}

    def add(self, ev, **kw):
        kw['ev'] = ev
        self.f.write(json.dumps(kw, separators=(',', ':')) + '\n')
        self.n += 1
        self.hist[ev] = self.hist.get(ev, 0) + 1

    def close(self):
        self.f.close()


class Called:
    """outcome of one call: value, error class name, whether a limit warning was emitted"""

    def __init__(self, fn):
        self.err, self.msg, self.value, self.exc = '', '', None, None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                self.value = fn()
            except Exception as e:  # pylint: disable=broad-except
                self.exc = e
                self.err = errclass(e)
                self.msg = repr(e)[:200]
        self.warn = any(issubclass(x.category, UserWarning) for x in w)


def errclass(e):
    # the documented class the error belongs to (subclasses count)
    if isinstance(e, KeyError):
        return 'KeyError'
    if isinstance(e, ValueError):
        return 'ValueError'
    if isinstance(e, TypeError):
        return 'TypeError'
    if isinstance(e, AssertionError):
        return 'AssertionError'
    return type(e).__name__


def f32(x):
    return float(np.float32(x))


class Rng(random.Random):

    def vec(self, n, lo=-1.0, hi=1.0):
        return [self.uniform(lo, hi) for _ in range(n)]

    def sgn(self):
        return self.choice([-1.0, 1.0])

    def quat(self):
        while True:
            q = [self.gauss(0, 1) for _ in range(4)]
            n = math.sqrt(sum(a * a for a in q))
            if n > 0.1:
                return [a / n for a in q]


# ------------------------------------------------------------------ vehicle catalogue
def classes():
    from safe_autonomy_dynamics.cwh.point_model import CWHSpacecraft
    from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dSpacecraft
    from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
    from safe_autonomy_dynamics.cwh.sun_model import SunEntity
    from safe_autonomy_dynamics.dubins import Dubins2dAircraft, Dubins3dAircraft
    from safe_autonomy_dynamics.integrators import Integrator1d, Integrator2d, Integrator3d
    return dict(cwh=CWHSpacecraft, rot2d=CWHRotation2dSpacecraft, sixdof=SixDOFSpacecraft, sun=SunEntity,
                dub2=Dubins2dAircraft, dub3=Dubins3dAircraft, int1=Integrator1d, int2=Integrator2d, int3=Integrator3d)


ALL = ['cwh', 'rot2d', 'sixdof', 'dub2', 'dub3', 'int1', 'int2', 'int3', 'sun']
ACT = [c for c in ALL if c != 'sun']
NAMES = dict(cwh=['thrust_x', 'thrust_y', 'thrust_z'], rot2d=['thrust_x', 'thrust_y', 'moment_z'],
             sixdof=['thrust_x', 'thrust_y', 'thrust_z', 'moment_x', 'moment_y', 'moment_z'],
             dub2=['heading_rate', 'acceleration'], dub3=['gamma_rate', 'roll_rate', 'acceleration'],
             int1=['thrust_x'], int2=['thrust_x', 'thrust_y'], int3=['thrust_x', 'thrust_y', 'thrust_z'], sun=[])
DIM = dict(cwh=6, rot2d=6, sixdof=13, dub2=4, dub3=7, int1=2, int2=4, int3=6, sun=1)
# documented constructor defaults
DEFAULTS = dict(
    cwh=dict(m=12.0, n=0.001027),
    rot2d=dict(m=12.0, inertia=0.0573, aal=0.017453, avl=0.034907, iw=4.1e-5, alw=181.3, vlw=576.0, n=0.001027),
    sixdof=dict(m=12.0, ix=0.0573, iy=0.0573, iz=0.0573, aal=[0.017453] * 3, avl=[0.034907] * 3, iw=4.1e-5, alw=181.3,
                vlw=576.0, tcl=1.0, body=True, n=0.001027),
    dub2=dict(vmin=200.0, vmax=400.0, hmin=-0.174533, hmax=0.174533, amin=-96.5, amax=96.5),
    dub3=dict(vmin=200.0, vmax=400.0, gmin=-0.349066, gmax=0.349066, rmin=-1.047198, rmax=1.047198, grmin=-0.174533,
              grmax=0.174533, rrmin=-0.087266, rrmax=0.087266, amin=-96.5, amax=96.5),
    int1=dict(m=1.0, damp=0.0), int2=dict(m=1.0, damp=0.0), int3=dict(m=1.0, damp=0.0), sun=dict(n=0.001027))
KW = dict(
    cwh=dict(m='m', n='n'),
    rot2d=dict(m='m', inertia='inertia', aal='ang_acc_limit', avl='ang_vel_limit', iw='inertia_wheel', alw='acc_limit_wheel',
               vlw='vel_limit_wheel', n='n'),
    sixdof=dict(m='m', aal='ang_acc_limit', avl='ang_vel_limit', iw='inertia_wheel', alw='acc_limit_wheel',
                vlw='vel_limit_wheel', tcl='thrust_control_limit', body='body_frame_thrust', n='n'),
    dub2=dict(vmin='v_min', vmax='v_max', hmin='heading_rate_control_min', hmax='heading_rate_control_max',
              amin='acceleration_control_min', amax='acceleration_control_max'),
    dub3=dict(vmin='v_min', vmax='v_max', gmin='gamma_min', gmax='gamma_max', rmin='roll_min', rmax='roll_max',
              grmin='gamma_rate_control_min', grmax='gamma_rate_control_max', rrmin='roll_rate_control_min',
              rrmax='roll_rate_control_max', amin='acceleration_control_min', amax='acceleration_control_max'),
    int1=dict(m='m', damp='damping'), int2=dict(m='m', damp='damping'), int3=dict(m='m', damp='damping'), sun=dict(n='n'))
# initial-state keywords in state order
INIT = dict(cwh=['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'], rot2d=['x', 'y', 'theta', 'x_dot', 'y_dot', 'wz'],
            sixdof=['x', 'y', 'z', 'q1', 'q2', 'q3', 'q4', 'x_dot', 'y_dot', 'z_dot', 'wx', 'wy', 'wz'],
            dub2=['x', 'y', 'heading', 'v'], dub3=['x', 'y', 'z', 'heading', 'gamma', 'roll', 'v'],
            int1=['x', 'xdot'], int2=['x', 'y', 'xdot', 'ydot'], int3=['x', 'y', 'z', 'xdot', 'ydot', 'zdot'], sun=['theta'])


class Config:
    """one constructor configuration: prm is what the specification sees, kwargs what the constructor gets"""

    def __init__(self, cls, prm=None, limform='list', method=None, samples=0, drop=True):
        self.cls = cls
        self.prm = dict(DEFAULTS[cls])
        self.given = dict(prm or {})
        self.prm.update(self.given)
        self.limform = limform
        self.method = method
        self.samples = samples
        self.wide = False

    def kwargs(self, keep=None):
        """keep: where to put the arrays handed over"""
        kw = {}
        for k, v in self.given.items():
            if k in KW[self.cls]:
                kw[KW[self.cls][k]] = v
        if self.cls == 'sixdof':
            if any(k in self.given for k in ('ix', 'iy', 'iz')):
                kw['inertia_matrix'] = np.diag([self.prm['ix'], self.prm['iy'], self.prm['iz']])
            for k in ('aal', 'avl'):
                if k in self.given:
                    v = list(self.given[k])
                    if self.limform == 'array':
                        v = np.array(v, dtype=float)
                        if keep is not None:
                            keep[k] = v
                    elif self.limform == 'number' and v[0] == v[1] == v[2]:
                        v = v[0]
                    kw[KW['sixdof'][k]] = v
        if self.method is not None:
            kw['integration_method'] = self.method
        if self.samples and self.cls != 'sun':
            kw['trajectory_samples'] = self.samples
        return kw

    def make(self, init=None, name='e', keep=None, **extra):
        kw = self.kwargs(keep)
        kw.update(extra)
        if init is not None:
            kw.update(zip(INIT[self.cls], init))
        elif self.cls == 'sixdof':
            kw['q4'] = 1.0
        return classes()[self.cls](name=name, **kw)

    def enc(self):
        out = {}
        for k, v in self.prm.items():
            out[k] = v if isinstance(v, bool) else (fxv(v) if isinstance(v, list) else fx(v))
        return out

    def ulim(self):
        """python copy of the actuator limits, used only to choose inputs"""
        p, c = self.prm, self.cls
        if c == 'rot2d':
            a = min(p['aal'], p['iw'] * p['alw'] / p['inertia']) * p['inertia']
            hi = [1.0, 1.0, a]
        elif c == 'sixdof':
            J = [p['ix'], p['iy'], p['iz']]
            hi = [p['tcl']] * 3 + [min(p['aal'][i], p['iw'] * p['alw'] / J[i]) * J[i] for i in range(3)]
        elif c == 'dub2':
            return [p['hmin'], p['amin']], [p['hmax'], p['amax']]
        elif c == 'dub3':
            return [p['grmin'], p['rrmin'], p['amin']], [p['grmax'], p['rrmax'], p['amax']]
        else:
            hi = [1.0] * len(NAMES[c])
        return [-v for v in hi], hi

    def slim(self):
        """python copy of the state limits, used only to choose inputs"""
        p, c = self.prm, self.cls
        lo, hi = [-math.inf] * DIM[c], [math.inf] * DIM[c]
        if c == 'rot2d':
            hi[5] = min(p['avl'], p['iw'] * p['vlw'] / p['inertia'])
            lo[5] = -hi[5]
        elif c == 'sixdof':
            for i, J in enumerate((p['ix'], p['iy'], p['iz'])):
                hi[10 + i] = min(p['avl'][i], p['iw'] * p['vlw'] / J)
                lo[10 + i] = -hi[10 + i]
        elif c == 'dub2':
            lo[3], hi[3] = p['vmin'], p['vmax']
        elif c == 'dub3':
            lo[4:7], hi[4:7] = [p['gmin'], p['rmin'], p['vmin']], [p['gmax'], p['rmax'], p['vmax']]
        return lo, hi


def rand_config(cls, rng, default=0.3, wide=0.0, **kw):
    """random constructor parameters; float32-representable where the code may store float32.
    wide: how often to leave the usual ranges altogether (such a configuration has .wide set)"""
    u = rng.uniform
    if rng.random() < default:
        return Config(cls, **kw)
    p = {}
    w = rng.random() < wide

    def put(k, v):
        if rng.random() < 0.8:
            p[k] = v

    def log(lo, hi, lo2, hi2, digits):
        return 10**u(lo2, hi2) if w else round(10**u(lo, hi), digits)

    def count(v, choices):
        """sometimes a whole number, given as an int"""
        return rng.choice(choices) if w and rng.random() < 0.3 else v

    if cls in ('cwh', 'rot2d', 'sixdof'):
        put('m', count(log(-0.3, 2, -2, 4, 3), [1, 2, 12, 1000]))
        put('n', rng.choice([0.0, 10**u(-6, -1), 10**u(-2, -0.5)]) if w else round(10**u(-3.3, -1.5), 6))
    if cls == 'rot2d':
        put('inertia', count(log(-1.5, 1, -3, 2, 4), [1, 3]))
        put('aal', count(log(-2.3, -0.3, -4, 1, 5), [1, 2]))
        put('avl', count(log(-2, -0.2, -3, 1, 5), [1, 2]))
        put('iw', log(-4.5, -3, -6, 0, 7))
        put('alw', count(log(1.5, 2.7, 0, 3, 2), [100, 200]))
        put('vlw', count(log(2, 3, 0, 4, 2), [100, 600]))
    if cls == 'sixdof':
        J = [10**(u(-3, 2) if w else u(-1.5, 0.5)) for _ in range(3)]
        if rng.random() < 0.8:
            p['ix'], p['iy'], p['iz'] = J if w else [round(j, 4) for j in J]
            if w and rng.random() < 0.3:
                p['iy'] = p['iz'] = p['ix']
        same = rng.random() < 0.3
        for k, lo, hi in (('aal', -2.3, -0.3), ('avl', -2, -0.2)):
            v = [count(log(lo, hi, lo - 1.5, hi + 1.3, 5), [1, 2, 3]) for _ in range(3)]
            put(k, [v[0]] * 3 if same else v)
        put('iw', log(-4.5, -3, -6, 0, 7))
        put('alw', count(log(1.5, 2.7, 0, 3, 2), [100, 200]))
        put('vlw', count(log(2, 3, 0, 4, 2), [100, 600]))
        put('tcl', count(log(-1, 1, -3, 3, 3), [1, 5]))
        put('body', rng.random() < 0.6)
        kw.setdefault('limform', 'number' if same and rng.random() < 0.7 else rng.choice(['list', 'array']))
    if cls in ('dub2', 'dub3'):
        put('vmin', count(float(rng.choice([5, 20, 0.5]) if w else rng.choice([50, 100, 150, 220])), [10, 100]))
        put('vmax', count(float(rng.choice([1500, 10000] if w else [300, 450, 600, 1000])), [500, 2000]))
        put('amin', -float(rng.choice([0.5, 512, 2000] if w else [5, 20, 64, 128])))
        put('amax', float(rng.choice([0.25, 700, 3000] if w else [8, 16, 48, 100])))
        a = ['hmin', 'hmax'] if cls == 'dub2' else ['grmin', 'grmax', 'rrmin', 'rrmax']
        for k in a:
            put(k, (-1 if k.endswith('min') else 1) * rng.choice([0.001953125, 1.5, 4.0] if w else [0.0625, 0.125, 0.25, 0.5]))
    if cls == 'dub3':
        g = [0.03125, 1.0, 1.5, 2.0, 3.0] if w else [0.125, 0.25, 0.5, 0.75]
        put('gmin', -rng.choice(g))
        put('gmax', rng.choice(g if w else [0.0625, 0.25, 0.5, 0.875]))
        r = [0.03125, 1.25, 1.75, 2.5, 3.0] if w else [0.25, 0.5, 0.75, 1.0]
        put('rmin', -rng.choice(r))
        put('rmax', rng.choice(r if w else [0.25, 0.5, 0.625, 1.0]))
    if cls.startswith('int'):
        put('m', count(log(-1, 1.5, -3, 4, 3), [1, 2, 50]))
        put('damp', count(u(0, 8) if w else round(u(0, 1.5), 3), [0, 1, 2]))
    if cls == 'sun':
        put('n', rng.choice([0.0, 10**u(-6, 1), 1]) if w else round(10**u(-3.3, 0), 6))
    cfg = Config(cls, p, **kw)
    cfg.wide = w
    return cfg


def odd_quat(rng):
    """unit quaternions of tiny, right and straight angles, of either sign"""
    ax = rng.vec(3) if rng.random() < 0.6 else rng.choice([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    n = math.sqrt(sum(a * a for a in ax)) or 1.0
    th = rng.choice([10**rng.uniform(-6, -1), 10**rng.uniform(-3, -1), math.pi / 2, math.pi, math.pi - 10**rng.uniform(-4, -1)])
    q = [math.sin(th / 2) * a / n for a in ax] + [math.cos(th / 2)]
    n = math.sqrt(sum(a * a for a in q))
    f = rng.sgn()
    return [f * a / n for a in q]


def rand_state(cfg, rng, where='in'):
    """state inside the limits ('in'), on some limit ('at'), beyond some ('out'), or 'any'"""
    c = cfg.cls
    u = rng.uniform
    if where == 'any':
        where = rng.choice(['in', 'in', 'at', 'out'])
    lo, hi = cfg.slim()
    big = rng.choice([1.0, 30.0, 1000.0, 1000.0, 1e5])
    odd = rng.random() < 0.3  # values with structure
    if c == 'cwh':
        s = rng.vec(3, -big, big) + rng.vec(3, -big / 50 - .1, big / 50 + .1)
    elif c == 'rot2d':
        s = rng.vec(2, -big, big) + [u(-3.1, 3.1)] + rng.vec(2, -big / 50 - .1, big / 50 + .1) + [0.0]
        if odd:
            s[2] = rng.choice([0.0, math.pi / 2, -math.pi / 2, math.pi / 4, 3.0, rng.sgn() * 10**u(-8, -2)])
    elif c == 'sixdof':
        s = rng.vec(3, -big, big) + rng.quat() + rng.vec(3, -big / 50 - .1, big / 50 + .1) + [0.0] * 3
        if odd:
            s[3:7] = odd_quat(rng)
    elif c == 'dub2':
        s = rng.vec(2, -10 * big, 10 * big) + [u(-3.1, 3.1), 0.0]
    elif c == 'dub3':
        s = rng.vec(3, -10 * big, 10 * big) + [u(-3.1, 3.1), 0.0, 0.0, 0.0]
    elif c == 'sun':
        s = [rng.sgn() * 10**u(-3, 5) if odd else u(-6, 6)]
    else:
        d = DIM[c] // 2
        s = rng.vec(d, -big, big) + rng.vec(d, -5, 5)
    if odd and c.startswith('dub'):
        s[3 if c == 'dub3' else 2] = rng.choice([0.0, math.pi / 2, -math.pi / 2, 3.0, rng.sgn() * 10**u(-7, -2)])
    limited = [i for i in range(DIM[c]) if math.isfinite(lo[i])]
    picked = {i: 'in' for i in limited}
    if where in ('at', 'out') and limited:
        for i in rng.sample(limited, rng.randint(1, len(limited))):
            picked[i] = where
    for i in limited:
        w = hi[i] - lo[i]
        if picked[i] == 'in':
            s[i] = u(lo[i] + 0.2 * w, hi[i] - 0.2 * w)
        else:
            side = rng.random() < 0.5
            edge = hi[i] if side else lo[i]
            exact = not c.startswith('dub') or f32(edge) == edge  # aircraft limits may be held in single precision
            s[i] = edge if picked[i] == 'at' and exact else edge + (0.002 + 0.2 * rng.random()) * w * (1 if side else -1)
    return s


def rand_u(cfg, rng, where='in'):
    lo, hi = cfg.ulim()
    out = []
    if rng.random() < 0.08:
        where = 'tiny'
    for a, b in zip(lo, hi):
        k = where if where != 'mixed' else rng.choice(['in', 'in', 'at', 'out', 'far', 'tiny', 'just'])
        if k == 'just':  # hardly beyond (or within) a limit
            e = rng.choice([a, b])
            v = e + rng.sgn() * abs(e) * 10**rng.uniform(-5, -3)
        elif k == 'tiny':
            v = rng.sgn() * 10**rng.uniform(-9, -2) * (b - a)
        elif k == 'in':
            v = rng.uniform(a, b)
            if rng.random() < 0.1:
                v = 0.0
        elif k == 'at':
            v = rng.choice([a, b])
        elif k == 'out':
            v = rng.choice([b + (b - a) * rng.uniform(0.01, 1), a - (b - a) * rng.uniform(0.01, 1)])
        else:
            v = rng.choice([-1, 1]) * (10**rng.uniform(2, 6) if rng.random() < 0.85 else math.inf)
        out.append(v)
    return out
