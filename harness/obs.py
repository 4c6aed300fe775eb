"""Drivers for what an entity shows of its state (C18), units and validation (C19) and equality (C20): see spec/TrObs.tla."""
import math

from lib import *  # noqa: F401,F403
from lib import ACT, ALL, Called, Config, DIM, INIT, Rng, Trace, classes, fx, fxm, fxv, np, rand_config, rand_state, rand_u

SCAL = dict(
    cwh=['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'],
    rot2d=['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'theta', 'wx', 'wy', 'wz'],
    sixdof=['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'wx', 'wy', 'wz', 'q1', 'q2', 'q3', 'q4'],
    dub2=['x', 'y', 'z', 'heading', 'yaw', 'v', 'gamma', 'pitch', 'roll'],
    dub3=['x', 'y', 'z', 'heading', 'yaw', 'v', 'gamma', 'pitch', 'roll'],
    int1=['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'], int2=['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'],
    int3=['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'], sun=['theta'])
WITH = dict(
    cwh=['x', 'y', 'z', 'position', 'velocity', 'x_dot', 'y_dot', 'z_dot'],
    dub2=['x', 'y', 'z', 'position', 'velocity', 'v', 'yaw', 'pitch', 'roll', 'heading', 'gamma', 'acceleration'],
    int1=['x', 'y', 'z', 'position', 'velocity'])
WITH['rot2d'] = WITH['sixdof'] = WITH['cwh'] + ['wx', 'wy', 'wz', 'angular_velocity']
WITH['dub3'] = WITH['dub2']
WITH['int2'] = WITH['int3'] = WITH['int1']
SPEED = dict(dub2=3, dub3=6)
DEFAULT_STATE = dict(cwh=[0.0] * 6, rot2d=[0.0] * 6, sixdof=[0.0] * 6 + [1.0] + [0.0] * 6, dub2=[0.0, 0.0, 0.0, 200.0],
                     dub3=[0.0] * 6 + [200.0], sun=[0.0])


def flat(v):
    return np.asarray(v, dtype=float).ravel()


class Zoo:

    def __init__(self, prop, seed):
        self.rng = Rng(f'{seed}.{prop}.obs')
        self.prop = prop
        self.n = 0
        self.tab = {}

    def open(self, path):
        self.tr = Trace(path)

    def cfg(self, c):
        cfg = rand_config(c, self.rng, default=0.5, wide=0.3)
        if cfg.wide and c in SPEED:
            cfg.method = 'Euler'  # (steep rolls have no smooth flow)
        self.n += 1
        self.tr.add('cfg', id=self.n, cls=cfg.cls, p=cfg.enc())
        return self.n, cfg

    def vd(self, c, ent):
        return float(flat(ent.state_dot)[SPEED[c]]) if c in SPEED else 0.0

    # ------------------------------------------------------------------ C18
    def obs(self, k, cfg, ent, site=''):
        c = cfg.cls
        x = flat(ent.state)

        def look():
            o = dict(s={a: fx(getattr(ent, a)) for a in SCAL[c]})
            if c == 'sun':
                return o
            o.update(pos=fxv(ent.position), vel=fxv(ent.velocity), R=fxm(ent.orientation.as_matrix()), q=[], qs=[], om=[], acc=[], vd=fx(0))
            if c in ('rot2d', 'sixdof'):
                o.update(q=fxv(ent.quaternion), qs=[fx(getattr(ent, a)) for a in ('q1', 'q2', 'q3', 'q4')], om=fxv(ent.angular_velocity))
            if c in SPEED and x[SPEED[c]] > 0:
                o.update(acc=fxv(ent.acceleration), vd=fx(self.vd(c, ent)))
            return o

        r = Called(look)
        kw = r.value if not r.err else dict(s=dict(), msg=r.msg)
        self.tr.add('obs', k=k, x=fxv(x), err=r.err, site=site, **kw)

    def init_values(self, cfg):
        rng = self.rng
        c = cfg.cls
        s = rand_state(cfg, rng, 'any')
        if rng.random() < 0.3:
            for i in range(len(s)):
                if rng.random() < 0.4 and not (c in SPEED and i == SPEED[c]) and not (c == 'sixdof' and 3 <= i <= 6):
                    s[i] = 0.0
        if c == 'sixdof' and rng.random() < 0.4:
            f = rng.choice([0.5, 2.0, 1.7, 10.0])
            for i in range(3, 7):
                s[i] *= f
        if c == 'sixdof' and rng.random() < 0.2:
            s[3:7] = rng.choice([[1.0, 0, 0, 0], [0, 1.0, 0, 0], [0, 0, 1.0, 0], [0, 0, 0, 1.0], [0, 0, 0, -1.0], [.5, .5, .5, .5]])
        if c == 'rot2d' and rng.random() < 0.3:
            s[2] = rng.choice([math.pi / 2, -math.pi / 2, 3.0, -3.0, 0.0])
        if c in SPEED and rng.random() < 0.3:
            s[2 if c == 'dub2' else 3] = rng.choice([math.pi / 2, -math.pi / 2, 3.0, -3.0, 0.0])
        return s

    def shuffled(self, cfg, s):
        kw = list(zip(INIT[cfg.cls], s))
        self.rng.shuffle(kw)
        return dict(kw)

    def one_view(self):
        rng, tr = self.rng, self.tr
        k, cfg = self.cfg(rng.choice(ALL))
        c = cfg.cls
        s = self.init_values(cfg)
        nm = rng.choice(['e', 'deputy', 'a b', 'x_1'])
        kw = cfg.kwargs()
        kw.update(self.shuffled(cfg, s))
        r = Called(lambda: classes()[c](name=nm, **kw))
        if r.err:
            tr.add('built', k=k, err=r.err, msg=r.msg)
            return
        ent = r.value
        tr.add('built', k=k, err='', g=fxv(s), x=fxv(flat(ent.state)), name=ent.name == nm)
        self.obs(k, cfg, ent)
        for _ in range(rng.randint(1, 4)):
            op = rng.random()
            if op < 0.45:
                h = rng.choice([0.1, 0.5, 1.0])
                u = rand_u(cfg, rng, 'mixed') if c != 'sun' else []
                act = np.array(u) if c != 'sun' else None
                Called(lambda: ent.step(h, act))
            elif op < 0.7 or c not in SPEED:
                ent.state = np.array(self.init_values(cfg))
            else:
                a = rng.choice(['x', 'y', 'heading', 'v'] + (['z', 'gamma', 'roll'] if c == 'dub3' else []))
                i = INIT[c].index(a)
                v = self.init_values(cfg)[i]
                before = flat(ent.state)
                r = Called(lambda: setattr(ent, a, v))
                tr.add('assign', k=k, attr=a, value=fx(v), x=fxv(before), y=fxv(ent.state), err=r.err)
            self.obs(k, cfg, ent)

    def one_relative(self):
        rng, tr = self.rng, self.tr

        class Sim:  # what an entity needs of a simulation
            pass

        sim = Sim()
        ents = {}
        for i in range(rng.randint(2, 4)):
            c = rng.choice(['cwh', 'rot2d', 'sixdof'] + (['int3'] if i else []))
            k, cfg = self.cfg(c)
            nm = f'e{i}'
            extra = dict(sim=sim) if c != 'int3' and rng.random() < 0.5 else {}
            ents[nm] = (k, cfg, cfg.make(self.init_values(cfg), name=nm, **extra))
        sim.sim_entities = {n: t[2] for n, t in ents.items()}
        if rng.random() < 0.3:
            other = Sim()
            other.sim_entities = {n: t[1].make(self.init_values(t[1]), name=n) for n, t in ents.items()}
            for t in ents.values():
                if hasattr(t[2], 'set_sim'):
                    t[2].set_sim(other)
        for t in ents.values():
            if hasattr(t[2], 'set_sim'):
                t[2].set_sim(sim)
        for _ in range(4):
            for n1, (k, cfg, e1) in ents.items():
                if cfg.cls == 'int3':
                    continue
                for n2, (k2, cfg2, e2) in ents.items():
                    if rng.random() < 0.5:
                        continue
                    r = Called(lambda: (e1.entity_relative_position(n2), e1.entity_relative_velocity(n2)))
                    kw = dict(rp=fxv(r.value[0]), rv=fxv(r.value[1])) if not r.err else dict(msg=r.msg)
                    tr.add('relative', k=k, k2=k2, x=fxv(flat(e1.state)), x2=fxv(flat(e2.state)), err=r.err, **kw)
            for k, cfg, e in ents.values():
                if rng.random() < 0.5:
                    Called(lambda: e.step(rng.choice([0.5, 1.0]), np.array(rand_u(cfg, rng, 'in'))))
            if rng.random() < 0.5:  # the simulation is reset: another entity under a name already used
                nm = rng.choice(list(ents))
                if ents[nm][1].cls != 'int3':
                    k, cfg = self.cfg(rng.choice(['cwh', 'rot2d', 'sixdof']))
                    new = cfg.make(self.init_values(cfg), name=nm)
                    new.set_sim(sim)
                    ents[nm] = (k, cfg, new)
                    sim.sim_entities[nm] = new
            if rng.random() < 0.25:  # a new simulation with entities of the same names
                sim = Sim()
                fresh = {}
                for nm in ents:
                    c = ents[nm][1].cls
                    k, cfg = self.cfg(c)
                    fresh[nm] = (k, cfg, cfg.make(self.init_values(cfg), name=nm))
                keep = rng.choice(list(ents))
                fresh[keep] = ents[keep]
                ents = fresh
                sim.sim_entities = {n: t[2] for n, t in ents.items()}
                for t in ents.values():
                    if hasattr(t[2], 'set_sim'):
                        t[2].set_sim(sim)
            if rng.random() < 0.25 and len(ents) > 1:  # two entities exchange their names
                n1, n2 = rng.sample(list(ents), 2)
                ents[n1], ents[n2] = ents[n2], ents[n1]
                sim.sim_entities = {n: t[2] for n, t in ents.items()}

    def default_sixdof(self):
        k, cfg = self.n + 1, Config('sixdof')
        self.n += 1
        self.tr.add('cfg', id=self.n, cls='sixdof', p=cfg.enc())
        self.obs(k, cfg, classes()['sixdof'](name='e'), site='default-constructed SixDOFSpacecraft')

    # ------------------------------------------------------------------ C19
    UNITS = dict(
        metre='meter', kilometre='kilometer', foot='foot', mile='mile', centimetre='cm', inch='inch', yard='yard',
        nautical_mile='nautical_mile', metre_per_second='m/s', kilometre_per_hour='km/hour', foot_per_second='ft/s',
        mile_per_hour='mile/hour', knot='knot', foot_per_minute='ft/minute', radian='radian', degree='degree', milliradian='milliradian',
        turn='turn', arcminute='arcminute', radian_per_second='rad/s', degree_per_second='degree/second', degree_per_minute='deg/min',
        rpm='rpm', second='second', hour='hour', kilogram='kg', metre_per_second_squared='m/s**2', square_metre='m**2', newton='newton',
        kelvin='kelvin')
    KIND = dict(
        L=['metre', 'kilometre', 'foot', 'mile', 'centimetre', 'inch', 'yard', 'nautical_mile'],
        LT=['metre_per_second', 'kilometre_per_hour', 'foot_per_second', 'mile_per_hour', 'knot', 'foot_per_minute'],
        A=['radian', 'degree', 'milliradian', 'turn', 'arcminute'],
        AT=['radian_per_second', 'degree_per_second', 'degree_per_minute', 'rpm'],
        X=['second', 'hour', 'kilogram', 'metre_per_second_squared', 'square_metre', 'newton', 'kelvin'])
    DIMS = dict(x='L', y='L', z='L', x_dot='LT', y_dot='LT', z_dot='LT', v='LT', theta='A', heading='A', gamma='A', roll='A', wx='AT',
                wy='AT', wz='AT')

    def quantity(self, m, unit):
        import pint
        rng = self.rng
        ureg = pint.get_application_registry()
        form = rng.random()
        if form < 0.5:
            return ureg.Quantity(m, self.UNITS[unit])
        if form < 0.8:
            return pint.Quantity(m, self.UNITS[unit])
        return m * ureg(self.UNITS[unit]) if unit != 'kelvin' else ureg.Quantity(m, 'kelvin')

    def one_given(self):
        rng, tr = self.rng, self.tr
        c = rng.choice(['cwh', 'rot2d', 'sixdof', 'dub2', 'dub3', 'sun'])
        k, cfg = self.cfg(c)
        for par in [p for p in INIT[c] if p in self.DIMS]:
            d = self.DIMS[par]
            kind = d if rng.random() < 0.6 else rng.choice([q for q in ('L', 'LT', 'A', 'AT', 'X') if q != d])
            unit = rng.choice(self.KIND[kind])
            m = rng.choice([0.0, 1.0, -3.0, rng.uniform(-5, 5), rng.sgn() * 10**rng.uniform(-2, 4)])
            val = rng.choice([m, m, int(m), np.float64(m), np.float32(m)])
            kw = cfg.kwargs()
            if c == 'sixdof':
                kw['q4'] = 1.0
            kw[par] = self.quantity(val, unit)
            r = Called(lambda: classes()[c](name='e', **kw))
            i = INIT[c].index(par)
            got, rest = fx(0), False
            if not r.err:
                st = flat(r.value.state)
                rest = len(st) == DIM[c] and all(st[j] == DEFAULT_STATE[c][j] for j in range(DIM[c]) if j != i)
                got = fx(st[i])
            tr.add('given', k=k, par=par, unit=unit, mag=fx(val), got=got, rest=rest, err=r.err, msg=r.msg)
        if rng.random() < 0.6:  # several quantities at once, each in its own unit
            vals, kw = [], cfg.kwargs()
            from_ = {}
            for par in INIT[c]:
                if par in self.DIMS:
                    unit = rng.choice(self.KIND[self.DIMS[par]])
                    m = rng.uniform(-5, 5)
                    kw[par] = self.quantity(m, unit)
                    from_[par] = (unit, m)
                else:
                    kw[par] = 1.0 if par == 'q4' else 0.0
            r = Called(lambda: classes()[c](name='e', **kw))
            for par, (unit, m) in from_.items():
                got = fx(0)
                if not r.err:
                    got = fx(flat(r.value.state)[INIT[c].index(par)])
                tr.add('given', k=k, par=par, unit=unit, mag=fx(m), got=got, rest=True, err=r.err, msg=r.msg)

    def one_config(self):
        rng, tr = self.rng, self.tr
        c = rng.choice(ALL)
        k, cfg = self.cfg(c)
        base = cfg.kwargs()
        if c == 'sixdof':
            base['q4'] = 1.0
        cl = classes()[c]
        r = Called(lambda: cl(name='e', **base))
        tr.add('good', k=k, err=r.err, msg=r.msg)
        others = {'x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'theta', 'wz', 'wx', 'q1', 'heading', 'v', 'gamma', 'roll', 'xdot', 'ydot',
                  'position', 'velocity', 'foo', 'X', 'names', 'speed', 'theta_dot', 'mass', 'angle', 'x_dott'}
        allowed = set(INIT[c]) | ({'x', 'y', 'z', 'xdot', 'ydot', 'zdot'} if c.startswith('int') else set()) | (
            {'z'} if c == 'dub2' else set())
        for par in rng.sample(sorted(others - allowed), 5):
            kw = dict(base)
            kw[par] = rng.choice([0, 1.0, 0.0, None])
            r = Called(lambda: cl(name='e', **kw))
            tr.add('bad', k=k, what='unknown', par=par, err=r.err, msg=r.msg)
        r = Called(lambda: cl(**base))
        tr.add('bad', k=k, what='noname', par='', err=r.err, msg=r.msg)
        par = rng.choice([p for p in INIT[c]])
        r = Called(lambda: cl(**dict(base, name='e', **{par: rng.choice(['abc', None, [1.0, 2.0], {}])})))
        tr.add('bad', k=k, what='notanumber', par=par, err=r.err, msg=r.msg)
        # plain numbers of any numeric type
        s = [float(np.float32(v)) for v in self.init_values(cfg)]
        kw = cfg.kwargs()
        kw.update({p: rng.choice([float, np.float32, np.float64])(v) for p, v in self.shuffled(cfg, s).items()})
        r = Called(lambda: cl(name='e', **kw))
        tr.add('good', k=k, err=r.err, msg=r.msg)

    def one_with(self):
        rng, tr = self.rng, self.tr
        c = rng.choice(ACT)
        k, cfg = self.cfg(c)
        ent = cfg.make(self.init_values(cfg))
        for step in range(2):
            for a in WITH[c]:
                nm = a + '_with_unit' if a in ('wx', 'wy', 'wz') else a + '_with_units'

                def look():
                    q = getattr(ent, nm)
                    return flat(q.magnitude), flat(q.to_base_units().magnitude), dimension(q), flat(getattr(ent, a))

                r = Called(look)
                kw = dict(mag=fxv(r.value[0]), si=fxv(r.value[1]), dim=r.value[2], plain=fxv(r.value[3])) if not r.err else dict(msg=r.msg)
                tr.add('with', k=k, attr=a, err=r.err, **kw)
            Called(lambda: ent.step(0.5, np.array(rand_u(cfg, rng, 'in'))))

    # ------------------------------------------------------------------ C20
    def variant(self, cfg, x):
        """a state that differs in one physical component (or none)"""
        rng = self.rng
        c = cfg.cls
        y = list(x)
        if rng.random() < 0.3:
            return y
        i = rng.randrange(len(y))
        if c == 'sixdof' and 3 <= i <= 6:
            j = rng.choice([j for j in range(3, 7) if j != i])
            a = rng.choice([1e-5, 1e-3, 0.01, 0.5, 2.0])
            y[i], y[j] = (math.cos(a) * x[i] - math.sin(a) * x[j], math.sin(a) * x[i] + math.cos(a) * x[j])
            return y
        ang = {'rot2d': [2], 'dub2': [2], 'dub3': [3, 4, 5]}.get(c, [])
        size = max(abs(x[i]), 1e-30)
        k = rng.random()
        if k < 0.3:  # a few units in the last place of single precision
            y[i] = x[i] + rng.sgn() * size * 10**rng.uniform(-5.6, -3) if x[i] else rng.sgn() * 10**rng.uniform(-9, -3)
        elif k < 0.5 and not (c in SPEED and i == SPEED[c]):
            y[i] = -x[i] if x[i] else 1.0
        elif k < 0.6 and c not in SPEED and c != 'sixdof':
            j = rng.randrange(len(y))
            y[i], y[j] = x[j], x[i]
            if c == 'rot2d' and 5 in (i, j):
                y = list(x)
        elif i in ang:
            y[i] = x[i] + rng.sgn() * rng.choice([1e-3, 0.1, 0.4])
        else:
            y[i] = x[i] + rng.sgn() * rng.choice([1e-3, 0.1]) * (1 + abs(x[i]))
        return y

    def compare(self, k1, c1, e1, k2, c2, e2):
        def look():
            return [bool(e1 == e2), bool(e2 == e1), bool(e1 != e2), bool(e1 == e1)]

        r = Called(look)
        v = r.value if not r.err else [False] * 4
        self.tr.add('eq', k=k1, k2=k2, x1=fxv(flat(e1.state)), x2=fxv(flat(e2.state)), vd1=fx(self.vd(c1.cls, e1)),
                    vd2=fx(self.vd(c2.cls, e2)), ab=v[0], ba=v[1], ne=v[2], aa=v[3], err=r.err, msg=r.msg)

    def legal(self, cfg):
        s = rand_state(cfg, self.rng, 'in')
        if self.rng.random() < 0.2:
            s = [0.0 if not (cfg.cls in SPEED and i == SPEED[cfg.cls]) and not (cfg.cls == 'sixdof' and 3 <= i <= 6) else v
                 for i, v in enumerate(s)]
        return [float(np.float32(v)) for v in s]

    def one_eq(self):
        rng, tr = self.rng, self.tr
        c = rng.choice(ACT)
        k1, g1 = self.cfg(c)
        k2, g2 = self.cfg(c) if rng.random() < 0.5 else (k1, g1)
        x = self.legal(g1)
        e1 = g1.make(x, name=rng.choice(['a', 'b']))
        e2 = g2.make(self.variant(g1, x), name=rng.choice(['a', 'b', 'c']))
        self.compare(k1, g1, e1, k2, g2, e2)
        # different histories, then states assigned
        for _ in range(2):
            for e, g in ((e1, g1), (e2, g2)):
                if rng.random() < 0.5:
                    Called(lambda: e.step(0.5, np.array(rand_u(g, rng, 'in'))))
            self.compare(k1, g1, e1, k2, g2, e2)
            y = self.legal(g1)
            e1.state = np.array(y)
            e2.state = np.array(self.variant(g1, y))
            self.compare(k1, g1, e1, k2, g2, e2)
        # other classes in look-alike states
        d = rng.choice([q for q in ACT if q != c])
        k3, g3 = self.cfg(d)
        n = {'dub2': 'dub3', 'dub3': 'dub2', 'cwh': 'int3', 'int3': 'cwh', 'int1': 'int2', 'int2': 'int3', 'rot2d': 'sixdof',
             'sixdof': 'cwh'}[c]
        k4, g4 = self.cfg(n)
        for k, g in ((k3, g3), (k4, g4)):
            z = self.legal(g)
            look = dict(zip(INIT[c], x))
            al = dict(x_dot='xdot', y_dot='ydot', z_dot='zdot', xdot='x_dot', ydot='y_dot', zdot='z_dot')
            z = [look.get(p, look.get(al.get(p, ''), (1.0 if p == 'q4' else 0.0 if p not in ('v', ) else z[i])))
                 for i, p in enumerate(INIT[g.cls])]
            e3 = g.make(z)
            e1.state = np.array(x)
            a = Called(lambda: (bool(e1 == e3), bool(e3 == e1)))
            for v in (a.value or (True, True)):
                tr.add('other', k=k1, eq=v, err=a.err, what=g.cls)
        for o in (None, 'e', 3, object(), e1.state, {}, double(e1)):
            r = Called(lambda: np.all(e1 == o) if not isinstance(o, np.ndarray) else type(e1).__eq__(e1, o))
            tr.add('other', k=k1, eq=bool(r.value), err=r.err, what=str(type(o)))
        sun = classes()['sun'](name='s')
        r = Called(lambda: (bool(e1 == sun), bool(sun == e1)))
        for v in (r.value or (True, True)):
            tr.add('other', k=k1, eq=v, err=r.err, what='sun')
        # equal entities under equal steps
        m = 'Euler' if g1.wide and c in SPEED else rng.choice(['RK45', 'Euler'])
        g = Config(c, g1.given, g1.limform, method=m)
        a, b = g.make(x, name='p'), g.make(x, name='q')
        for _ in range(3):
            u, h = rand_u(g, rng, 'in'), rng.choice([0.1, 0.5, 1.0])
            r1 = Called(lambda: a.step(h, np.array(u)))
            r2 = Called(lambda: b.step(h, np.array(u)))
            r = Called(lambda: bool(a == b) and bool(b == a))
            tr.add('twin', k=k1, eq=bool(r.value), err=r1.err or r2.err or r.err)


def double(e):
    """something that is no entity but shows the same attributes"""
    import types
    out = types.SimpleNamespace()
    for a in dir(e):
        if not a.startswith('_'):
            c = Called(lambda: getattr(e, a))
            if c.err == '':
                setattr(out, a, c.value)
    return out


def dimension(q):
    for s, d in (('[length]', 'L'), ('[length]/[time]', 'LT'), ('[length]/[time]**2', 'LTT'), ('[]', 'A'), ('1/[time]', 'AT')):
        if q.check(s):
            return d
    return '?'


def run(prop, seed, n, path):
    z = Zoo(prop, seed)
    z.open(path)
    if prop == 'C18':
        z.default_sixdof()
        for _ in range(n):
            z.one_view()
            if z.rng.random() < 0.35:
                z.one_relative()
    elif prop == 'C19':
        for _ in range(n):
            z.one_given()
            z.one_config()
            z.one_with()
    else:
        for _ in range(n):
            z.one_eq()
    z.tr.close()
    return z.tr
