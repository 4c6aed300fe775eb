"""Drivers for the vehicle properties C12-C17 and C21: see spec/TrVeh.tla."""
import math

from lib import *  # noqa: F401,F403
from lib import Called, Config, DIM, NAMES, Rng, Trace, fx, fxv, np, rand_config, rand_state, rand_u

CLS = dict(C12=['cwh'], C13=['rot2d'], C14=['sixdof'], C15=['dub2', 'dub3'], C16=['int1', 'int2', 'int3'], C21=['sun'])


def emit_cfg(tr, tab, cfg):
    tab.append(cfg)
    tr.add('cfg', id=len(tab), cls=cfg.cls, p=cfg.enc())
    return len(tab)


def good(v, n):
    try:
        v = np.asarray(v, dtype=float).ravel()
    except Exception:  # pylint: disable=broad-except
        return None
    return v if v.shape == (n, ) else None


def csd(tr, k, cfg, ent, rng, where, prev=None):
    c = cfg.cls
    x = np.array(rand_state(cfg, rng, where))
    near = prev is not None and rng.random() < 0.4
    if c == 'rot2d' and rng.random() < 0.5:
        x[2] = rng.uniform(-20, 20)
    u = np.array(rand_u(cfg, rng, 'in'))
    if c == 'dub2' or c == 'dub3':
        u = np.array(rand_u(cfg, rng, 'in'))
    if near:  # almost (or exactly) the question asked before
        x, u = prev[0].copy(), prev[1].copy() if rng.random() < 0.7 else u
        v = rng.choice([x, x, u]) if len(u) else x
        i = rng.randrange(len(v))
        v[i] += rng.choice([0.0, 1e-6, 1e-5, 1e-4, 1e-3]) * rng.sgn() * max(abs(v[i]), 1e-2)
        if c == 'sixdof' and 3 <= i <= 6:
            x[3:7] /= math.sqrt(sum(x[3:7]**2))
        lo, hi = cfg.ulim()
        u = np.clip(u, lo, hi) if len(u) else u
    t = rng.choice([0.0, rng.uniform(0, 3)])
    r = Called(lambda: ent.dynamics.compute_state_dot(t, x.copy(), u.copy()))
    d = good(r.value, DIM[c]) if r.err == '' else None
    err = r.err if r.err else ('' if d is not None else 'shape')
    tr.add('csd', k=k, x=fxv(x), u=fxv(u), d=fxv(d) if d is not None else [], err=err)
    return x, u


def duration(cfg, rng):
    """short enough for the integrator's error to be negligible"""
    c, p = cfg.cls, dict(cfg.prm)
    p['n'] = max(p.get('n', 0), 1e-9)
    if c == 'cwh':
        return min(rng.choice([0.1, 1.0, 5.0, 20.0]), 0.4 / p['n'])
    if c == 'rot2d':
        return min(rng.choice([0.1, 0.5, 2.0]), 0.4 / p['n'], 0.4 / p['avl'])
    if c == 'sixdof':
        return min(rng.choice([0.1, 0.5, 2.0]), 0.4 / p['n'], 0.2 / max(p['avl']))
    if c in ('dub2', 'dub3'):
        return rng.choice([0.05, 0.2, 0.5, 1.0])
    if c == 'sun':
        return rng.choice([0.1, 1.0, 7.5])
    return min(rng.choice([0.1, 0.5, 1.0]), 0.5 / max(p['damp'], 1e-9))


def reaches_limit(cfg, x, u, h):
    """would a limited component (with a directly commanded rate) cross a limit during the step?"""
    lo, hi = cfg.slim()
    ulo, uhi = cfg.ulim()
    u = [min(max(a, b), c) for a, b, c in zip(u, ulo, uhi)]
    c, p = cfg.cls, cfg.prm
    rate = {}
    if c == 'rot2d':
        rate[5] = u[2] / p['inertia']
    elif c == 'sixdof':
        J = [p['ix'], p['iy'], p['iz']]
        for i in range(3):
            # torque plus a bound of the gyroscopic term
            g = abs(J[(i + 1) % 3] - J[(i + 2) % 3]) / J[i] * max(abs(v) for v in hi[10:]) ** 2 * 1.5
            rate[10 + i] = (u[3 + i] / J[i], g)
    elif c == 'dub2':
        rate[3] = u[1]
    elif c == 'dub3':
        rate = {4: u[0], 5: u[1], 6: u[2]}
    for i, r in rate.items():
        r, g = r if isinstance(r, tuple) else (r, 0.0)
        for s in (r - g, r + g):
            y = x[i] + h * s
            for edge in (lo[i], hi[i]):
                if not math.isfinite(edge):
                    continue
                m = 1e-5 * (1 + abs(edge)) + 0.02 * abs(y - x[i])
                if min(x[i], y) - m <= edge <= max(x[i], y) + m and x[i] != edge:
                    return True
                if x[i] == edge and g and abs(r) <= g:
                    return True
    return False


def pick_u(cfg, rng, x, h, where):
    for _ in range(40):
        u = rand_u(cfg, rng, where)
        if not reaches_limit(cfg, x, u, h):
            return u
    return None


def stp(tr, k, cfg, rng, where, methods=('RK45', 'RK45', 'Euler'), hist=1):
    c = cfg.cls
    meth = rng.choice(list(methods))
    cfg2 = Config(c, cfg.given, cfg.limform, method=meth)
    x0 = rand_state(cfg2, rng, where)
    jax = dict(use_jax=True) if meth == 'RK45_JAX' else {}
    r = Called(lambda: cfg2.make(x0, **jax))
    if r.err:
        tr.add('stp', k=k, err=r.err, msg=r.msg)
        return
    ent = r.value
    for _ in range(hist):
        h = duration(cfg2, rng)
        x = ent.state.astype(float)
        u = rand_u(cfg2, rng, rng.choice(['in', 'mixed']))
        sub = 8
        if meth != 'Euler' and reaches_limit(cfg2, x, u, h):
            u2 = pick_u(cfg2, rng, x, h, 'mixed')
            if u2 is None:
                continue
            u = u2
        if meth == 'RK45' and c.startswith('dub'):  # keep the change of speed small against the speed
            ulo, uhi = cfg2.ulim()
            h = min(h, 0.15 * max(x[-1], cfg2.prm['vmin']) / max(abs(min(max(u[-1], ulo[-1]), uhi[-1])), 1e-3))
        uu = np.array(u)
        r = Called(lambda: ent.step(h, uu) if len(u) else ent.step(h))
        y = good(ent.state, DIM[c])
        if r.err or y is None:
            tr.add('stp', k=k, err=r.err or 'shape', msg=r.msg)
            return
        tr.add('stp', k=k, h=fx(h), x=fxv(x), u=fxv(u), y=fxv(y), meth=meth, sub=sub, err='')
        if c in ('dub2', 'dub3'):
            kin(tr, k, ent)


def kin(tr, k, ent):
    i = DIM['dub2'] - 1 if len(ent.state) == 4 else 6
    v0 = abs(float(ent.v)) < 1e-3
    tr.add('kin', k=k, x=fxv(ent.state), vel=fxv(ent.velocity), acc=fxv(ent.acceleration), vd=fx(ent.state_dot[i]), v0=v0)


def energy(tr, k, cfg, rng):
    ent = cfg.make(rand_state(cfg, rng, 'in'))
    xs = [ent.state.astype(float)]
    h = min(20.0, 0.2 / max(cfg.prm['n'], 1e-9))
    for _ in range(12):
        ent.step(h)
        xs.append(ent.state.astype(float))
    tr.add('energy', k=k, xs=[fxv(x) for x in xs])


def quat(tr, k, cfg, rng):
    ent = cfg.make(rand_state(cfg, rng, 'in'))
    h = 0.1 / max(cfg.prm['avl'])
    lo, hi = cfg.ulim()
    xs = [ent.state.astype(float)]
    for _ in range(10):
        ent.step(h, np.array([rng.uniform(-1, 1) * b for b in hi]))
        xs.append(ent.state.astype(float))
    tr.add('quat', k=k, xs=[fxv(x) for x in xs])


def vehicles(prop, rng, tr, n):
    tab = []
    for c in CLS[prop]:
        m = max(4, n // len(CLS[prop]))
        for i in range(m):
            cfg = rand_config(c, rng, wide=0.4)
            k = emit_cfg(tr, tab, cfg)
            r = Called(lambda: cfg.make(rand_state(cfg, rng, 'in')))
            if r.err:
                tr.add('csd', k=k, err=r.err, msg=r.msg)
                continue
            prev = None
            for _ in range(5):
                prev = csd(tr, k, cfg, r.value, rng, rng.choice(['in', 'in', 'at', 'out']), prev)
                if c in ('dub2', 'dub3'):
                    r.value.state = np.array(rand_state(cfg, rng, rng.choice(['in', 'at'])))
                    kin(tr, k, r.value)
            steep = cfg.wide and c.startswith('dub')
            stp(tr, k, cfg, rng, rng.choice(['in', 'in', 'at', 'out']), hist=3, methods=('Euler', ) if steep else ('RK45', 'RK45', 'Euler'))
            if c in ('rot2d', 'sun') and i % 8 == 0:
                stp(tr, k, cfg, rng, 'in', hist=2, methods=('RK45_JAX', ))
            if c == 'cwh' and i % 3 == 0:
                energy(tr, k, cfg, rng)
            if c == 'sixdof' and i % 4 == 0:
                quat(tr, k, cfg, rng)


# ------------------------------------------------------------------------------------ C17
def rel(tr, what, a, b, a0, ang=None, rtol=1e-9):
    n = len(a)
    tr.add('rel', what=what, err='', a=fxv(a), b=fxv(b), a0=fxv(a0), ang=ang or [0] * n, rtol=fx(rtol))


def both(tr, what, fn):
    r = Called(fn)
    if r.err:
        tr.add('rel', what=what, err=r.err, msg=r.msg)


def reductions(rng, tr, n):
    for _ in range(n):
        meth = rng.choice(['RK45', 'Euler'])
        m, w = round(10**rng.uniform(0, 2), 3), round(10**rng.uniform(-3.3, -2), 6)
        h = rng.choice([0.1, 1.0, 3.0])
        steps = 3
        pos, vel = rng.vec(3, -100, 100), rng.vec(3, -2, 2)
        us = [rng.vec(3, -1.3, 1.3) for _ in range(steps)]
        tol = 1e-4 if meth == 'RK45' else 1e-5
        mk = classes()

        def planar():
            a = mk['cwh'](name='a', m=m, n=w, integration_method=meth, x=pos[0], y=pos[1], x_dot=vel[0], y_dot=vel[1])
            b = mk['rot2d'](name='b', m=m, n=w, integration_method=meth, x=pos[0], y=pos[1], x_dot=vel[0], y_dot=vel[1])
            for u in us:
                p0 = np.concatenate([a.position, a.velocity])
                a.step(h, np.array([u[0], u[1], 0.0]))
                b.step(h, np.array([u[0], u[1], 0.0]))
                rel(tr, 'cwh-rot2d', np.concatenate([a.position, a.velocity]), np.concatenate([b.position, b.velocity]), p0,
                    rtol=tol)

        def six():
            body = rng.random() < 0.5
            q = [0, 0, 0, 1] if body else rng.quat()
            a = mk['cwh'](name='a', m=m, n=w, integration_method=meth, **dict(zip(INIT['cwh'], pos + vel)))
            rate = [0.0, 0, 0] if body else rng.vec(3, -.03, .03)
            b = mk['sixdof'](name='b', m=m, n=w, integration_method=meth, body_frame_thrust=body,
                             **dict(zip(INIT['sixdof'], pos + list(q) + vel + rate)))
            for u in us:
                p0 = np.concatenate([a.position, a.velocity])
                mom = [0.0] * 3 if body else rng.vec(3, -.001, .001)
                a.step(h, np.array(u))
                b.step(h, np.array(u + mom))
                rel(tr, 'cwh-sixdof', np.concatenate([a.position, a.velocity]), np.concatenate([b.position, b.velocity]), p0,
                    rtol=tol)

        def spin():
            th, wz = rng.uniform(-3, 3), rng.uniform(-.02, .02)
            J = round(10**rng.uniform(-1.3, -.5), 4)
            alim, vlim = round(rng.uniform(.01, .03), 4), round(rng.uniform(.03, .06), 4)
            iw = round(10**rng.uniform(-4.5, -3.7), 7)
            a = mk['rot2d'](name='a', m=m, n=w, inertia=J, ang_acc_limit=alim, ang_vel_limit=vlim, inertia_wheel=iw,
                            integration_method=meth, x=pos[0], y=pos[1], theta=th, x_dot=vel[0], y_dot=vel[1], wz=wz)
            b = mk['sixdof'](name='b', m=m, n=w, inertia_matrix=np.diag([J, J, J]), ang_acc_limit=alim, ang_vel_limit=vlim,
                             inertia_wheel=iw, integration_method='RK45',
                             **dict(zip(INIT['sixdof'], [pos[0], pos[1], 0, 0, 0, math.sin(th / 2), math.cos(th / 2),
                                                         vel[0], vel[1], 0, 0, 0, wz])))
            if meth == 'Euler':
                return
            for i in range(steps):
                u, mom = us[i], rng.uniform(-.3, .3) * J * alim
                hh = 0.5
                p0 = np.concatenate([a.position, a.velocity, [a.theta, a.wz]])
                a.step(hh, np.array([u[0], u[1], mom]))
                b.step(hh, np.array([u[0], u[1], 0, 0, 0, mom]))
                rel(tr, 'rot2d-sixdof', np.concatenate([a.position, a.velocity, [a.theta, a.wz]]),
                    np.concatenate([b.position, b.velocity, [2 * math.atan2(b.q3, b.q4), b.wz]]), p0,
                    ang=[0] * 6 + [1, 0], rtol=3e-4)

        def dubins():
            p = rng.vec(2, -1000, 1000)
            hd, v = rng.uniform(-3, 3), rng.uniform(260, 340)
            a = mk['dub2'](name='a', integration_method=meth, x=p[0], y=p[1], heading=hd, v=v)
            b = mk['dub3'](name='b', integration_method=meth, x=p[0], y=p[1], heading=hd, v=v)
            for _ in range(steps):
                acc = rng.uniform(-20, 20)
                p0 = np.concatenate([a.position, a.velocity, a.acceleration, [a.heading, a.v]])
                a.step(0.5, np.array([0.0, acc]))
                b.step(0.5, np.array([0.0, 0.0, acc]))
                rel(tr, 'dubins', np.concatenate([a.position, a.velocity, a.acceleration, [a.heading, a.v]]),
                    np.concatenate([b.position, b.velocity, b.acceleration, [b.heading, b.v]]), p0, ang=[0] * 9 + [1, 0],
                    rtol=tol)

        def integr():
            damp = round(rng.uniform(0, 1), 3)
            kw = dict(m=m, damping=damp, integration_method=meth)
            a = mk['int3'](name='a', x=pos[0], y=pos[1], z=pos[2], xdot=vel[0], ydot=vel[1], zdot=vel[2], **kw)
            b = mk['int2'](name='b', x=pos[0], y=pos[1], xdot=vel[0], ydot=vel[1], **kw)
            d = mk['int1'](name='d', x=pos[0], xdot=vel[0], **kw)
            for u in us:
                s0 = a.state.astype(float)
                a.step(0.4, np.array(u))
                b.step(0.4, np.array(u[:2]))
                d.step(0.4, np.array(u[:1]))
                s = a.state
                rel(tr, 'int3-int2', s[[0, 1, 3, 4]], b.state, s0[[0, 1, 3, 4]], rtol=tol)
                rel(tr, 'int2-int1', b.state[[0, 2]], d.state, s0[[0, 3]], rtol=tol)

        for nm, fn in (('cwh-rot2d', planar), ('cwh-sixdof', six), ('rot2d-sixdof', spin), ('dubins', dubins),
                       ('integrators', integr)):
            both(tr, nm, fn)


from lib import INIT, classes  # noqa: E402


def run(prop, seed, n, path):
    rng = Rng(f'{prop}-{seed}')
    tr = Trace(path)
    if prop == 'C17':
        reductions(rng, tr, n)
    else:
        vehicles(prop, rng, tr, n)
    tr.close()
    return tr
