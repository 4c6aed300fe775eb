"""Drivers for the lifecycle properties C01, C02, C03, C07, C08, C09: see spec/TrLife.tla."""
import math
import os
import pickle
import subprocess
import sys
import tempfile

import syn
from lib import *  # noqa: F401,F403
from lib import ALL, NAMES, Called, Config, Rng, Trace, f32, fx, fxv, np, rand_config, rand_state, rand_u
from veh import duration as veh_duration
from veh import good, reaches_limit

ATTRS = dict(
    cwh=['state', 'position', 'velocity'], rot2d=['state', 'position', 'velocity', 'quaternion', 'angular_velocity'],
    sixdof=['state', 'position', 'velocity', 'quaternion', 'angular_velocity'],
    dub2=['state', 'position', 'velocity', 'acceleration', 'quaternion', 'angular_velocity'],
    dub3=['state', 'position', 'velocity', 'acceleration', 'quaternion', 'angular_velocity'], int1=['state', 'position', 'velocity'],
    int2=['state', 'position', 'velocity'], int3=['state', 'position', 'velocity'], sun=['state'], syn=['state', 'position', 'velocity'])
READ = ['x', 'y', 'z', 'position', 'velocity', 'orientation', 'quaternion', 'angular_velocity', 'acceleration', 'v', 'heading', 'gamma',
        'roll', 'theta', 'wz', 'x_with_units', 'position_with_units', 'velocity_with_units', 'name', 'state', 'state_dot', 'q1', 'q4',
        'yaw', 'pitch', 'x_dot', 'base_units']


def cfg_dim(cfg):
    return cfg.dim if cfg.cls == 'syn' else DIM[cfg.cls]


def cfg_names(cfg):
    return cfg.names if cfg.cls == 'syn' else NAMES[cfg.cls]


def cfg_m(cfg):
    return len(cfg.p['udef']) if cfg.cls == 'syn' else len(NAMES[cfg.cls])


def udef(cfg):
    return list(cfg.p['udef']) if cfg.cls == 'syn' else [0.0] * len(NAMES[cfg.cls])


def state_of(cfg, rng, where):
    return syn.syn_state(cfg, rng, where) if cfg.cls == 'syn' else rand_state(cfg, rng, where)


def u_of(cfg, rng, where):
    return syn.syn_u(cfg, rng, where) if cfg.cls == 'syn' else rand_u(cfg, rng, where)


def duration(cfg, rng):
    if cfg.cls == 'syn':
        return rng.choice([0.05, 0.1, 0.25])
    return veh_duration(cfg, rng) * rng.choice([1.0, 1.0, 0.37])


def clip(cfg, u):
    lo, hi = cfg.ulim()
    return [min(max(v, a), b) for v, a, b in zip(u, lo, hi)]


class Scenario:
    """a group of entities living side by side in one process"""

    def __init__(self, rec, rng):
        self.rec, self.rng, self.ents = rec, rng, []

    whole = True

    def obs(self, i, why):
        cfg, e = self.ents[i]['cfg'], self.ents[i]['e']
        self.rec.add('obs', i=self.ents[i]['id'], why=why, x=safe(e.state, cfg_dim(cfg)), d=safe(e.state_dot, cfg_dim(cfg)))

    def create(self, cfg, init=None, name='e', cls_same=None):
        k = self.rec.cfg(cfg)
        init = init if init is not None else state_of(cfg, self.rng, self.rng.choice(['in', 'in', 'at', 'out']))
        keep = {}
        if cfg.cls == 'syn':
            e = cfg.make(init, name=name, keep=keep)
        else:
            kw = {}
            if cfg.cls == 'sixdof' and any(q in cfg.given for q in ('ix', 'iy', 'iz')):
                keep['J'] = kw['inertia_matrix'] = np.diag([cfg.prm['ix'], cfg.prm['iy'], cfg.prm['iz']])
            e = cfg.make(init, name=name, keep=keep, **kw)
            if any(not np.array_equal(keep[q], np.array(cfg.given[q], dtype=float)) for q in ('aal', 'avl') if q in keep):
                self.rec.add('args', i=0, k=k, fn='constructor', err='', msg='', before=[fx(0)], after=[fx(1)], later=[fx(1)])
        if not cfg.samples and self.rng.random() < .04 and cfg.method in ('Euler', 'RK45', None):
            self.age(cfg, e)
        rec = dict(id=self.rec.next_id(), cfg=cfg, e=e, k=k, keep=keep, last=None, passed=[], traj=None)
        self.ents.append(rec)
        self.rec.add('new', i=rec['id'], k=k, x=fxv(e.state), d=safe(e.state_dot, cfg_dim(cfg)))
        return len(self.ents) - 1

    def age(self, cfg, e):
        """a long life before the part that is recorded"""
        rng = self.rng
        for _ in range(rng.choice([70, 130, 260])):
            h = duration(cfg, rng)
            u = np.array(u_of(cfg, rng, 'in'), dtype=float)
            if cfg.method != 'Euler':
                h = min(h, 0.5)
            Called(lambda: e.step(h, u) if len(u) else e.step(h))
        e.state = np.array(state_of(cfg, rng, 'in'))

    # ------------------------------------------------------------------ commands
    def form(self, cfg, invalid=None, where='mixed', kind=None):
        """a command in some accepted form (or an invalid one): the action object, its record, and the command vector"""
        rng, names, m = self.rng, cfg_names(cfg), cfg_m(cfg)
        v = u_of(cfg, rng, where)
        if invalid:
            return self.bad_form(cfg, invalid, v)
        kinds = ['none', 'arr', 'arr', 'list', 'jax'] + (['dict', 'dict'] if names else [])
        kind = kind or rng.choice(kinds)
        if m == 0:
            kind = 'none'
        if kind == 'none':
            return None, dict(kind='none', names=[], vals=[]), udef(cfg)
        if kind == 'dict':
            which = [i for i in range(m) if rng.random() < .6]
            rng.shuffle(which)
            u = udef(cfg)
            d = {}
            for i in which:
                val = v[i]
                if rng.random() < .15 and not math.isinf(val):
                    val = float(round(val)) if abs(val) < 1e9 else val
                u[i] = val
                d[names[i]] = rng.choice([float, np.float64])(val) if rng.random() < .8 or math.isinf(val) or val != int(val) else int(val)
            return d, dict(kind='dict', names=list(d), vals=[fx(x) for x in d.values()]), u
        if kind == 'list':
            if rng.random() < .1:
                v = [float(int(max(min(x, 9), -9))) for x in v]
            a = [float(x) for x in v] if rng.random() < .9 else [int(x) if not math.isinf(x) and x == int(x) else x for x in v]
            return a, dict(kind='list', names=[], vals=fxv(v)), [f32(x) for x in v]
        if kind == 'jax':
            import jax.numpy as jnp
            a = jnp.array(v)
            v = [float(x) for x in np.asarray(a)]
            return a, dict(kind='jax', names=[], vals=fxv(v)), v
        a = np.array(v)
        if rng.random() < .1:
            a = a.astype(np.float32)
            v = [float(x) for x in a]
        elif rng.random() < .1:
            a = np.array([int(max(min(x, 9), -9)) for x in v])
            v = [float(x) for x in a]
        return a, dict(kind='arr', names=[], vals=fxv(v)), list(v)

    def bad_form(self, cfg, invalid, v):
        rng, names, m = self.rng, cfg_names(cfg), cfg_m(cfg)
        if invalid == 'name':
            if not names:
                return {'thrust_x': 0.1}, dict(kind='dict', names=['thrust_x'], vals=[fx(0.1)]), None
            n = [x for x in names if rng.random() < .5]
            bad = rng.choice(['warp', 'thrust', names[0].upper(), names[0] + ' ', '', 'moment_w'])
            n.insert(rng.randint(0, len(n)), bad)
            d = {x: float(rng.uniform(-1, 1)) for x in n}
            return d, dict(kind='dict', names=list(d), vals=fxv(d.values() if False else list(d.values()))), None
        if invalid == 'length':
            k = rng.choice([x for x in (0, 1, m - 1, m + 1, m + 2, 2 * m) if x != m and x >= 0])
            w = [rng.uniform(-.2, .2) for _ in range(k)]
            kind = rng.choice(['arr', 'list', 'jax'])
            if kind == 'jax':
                import jax.numpy as jnp
                a = jnp.array(w)
            else:
                a = np.array(w) if kind == 'arr' else list(w)
            return a, dict(kind=kind, names=[], vals=fxv(w)), None
        a = rng.choice([tuple(v), 'thrust_x', 0.5, 3, {0.1, 0.2}, frozenset([1]), b'ab', object(), True, range(m), iter(v), np.float64(0.5)])
        return a, dict(kind='bad', names=[], vals=[]), None

    # ------------------------------------------------------------------ events
    def step(self, i, invalid=None, where='mixed', h=None, kind=None, act=None):
        r, rng = self.ents[i], self.rng
        cfg, e = r['cfg'], r['e']
        n = cfg_dim(cfg)
        h = duration(cfg, rng) if h is None else h
        if act is None:
            act = self.form(cfg, invalid, where, kind)
        a, form, cmd = act
        pre, pred = np.array(e.state), np.array(e.state_dot)
        single = form['kind'] in ('list', 'jax') and cmd is not None and cfg.method != 'Euler'
        if single and (limited(cfg) if cfg.cls == 'syn' else reaches_limit(cfg, [float(x) for x in pre], cmd, h)):
            # single precision and a limit met inside the step do not go together: where it is met decides the solver's next moves
            a = np.array(cmd)
            form = dict(kind='arr', names=[], vals=fxv(cmd))
        judge = True
        if cfg.samples and cmd is not None and cfg.cls != 'syn':  # stay clear of limits, where solver accuracy is coarse
            for _ in range(30):
                if not reaches_limit(cfg, [float(x) for x in pre], cmd, h):
                    break
                a, form, cmd = self.form(cfg, None, 'in')
            else:
                judge = False
        before = snap(a)
        c = Called(lambda: e.step(h, a) if a is not None or rng.random() < .5 else e.step(h))
        y, d = safe(e.state, n), safe(e.state_dot, n)
        ev = dict(i=r['id'], k=r['k'], h=fx(h), form=form, pre=fxv(pre), preD=fxv(pred), y=y, d=d, err=c.err, msg=c.msg, warn=c.warn,
                  argsame=same(before, a), udef=safe(e.control_default, cfg_m(cfg)), pu=[], py=[], pd=[], perr='')
        if cmd is not None and c.err == '':
            u = clip(cfg, cmd)
            ev['pu'] = fxv(u)
            if cfg_m(cfg) == 0:
                u = []
            self.rec.probe(ev, (plain(cfg), h, pre, np.array(u, dtype=float)))
            r['last'] = (h, cmd, pre)
        self.rec.add_ev('step', ev)
        r['passed'] = [a] if isinstance(a, (np.ndarray, list, dict)) and c.err == '' else []
        if invalid:
            self.obs(i, 'rejected')
        if cfg.samples and c.err == '' and cmd is not None:
            r['traj'] = (h, pre, clip(cfg, cmd), y) if judge else None
        if cfg.samples and r['traj'] is not None:
            self.traj(i)
        return act

    def traj(self, i):
        r = self.ents[i]
        cfg, dyn = r['cfg'], r['e'].dynamics
        h, pre, u, y = r['traj']
        c = Called(lambda: (np.array(dyn.trajectory_t, dtype=float).ravel(), np.array(dyn.trajectory, dtype=float)))
        ts, xs, err = [], [], c.err
        if not err:
            ts, m = c.value
            if m.ndim != 2 or m.shape[1] != cfg_dim(cfg):
                err = 'shape'
            else:
                xs = m
        self.rec.add('traj', i=r['id'], k=r['k'], err=err, h=fx(h), pre=fxv(pre), u=fxv(u), ts=fxv(ts), xs=[fxv(x) for x in xs],
                     y=y)

    def assign(self, i, where='any', x=None):
        r = self.ents[i]
        x = np.array(state_of(r['cfg'], self.rng, where) if x is None else x, dtype=float)
        if self.whole and self.rng.random() < .1 and r['cfg'].cls in ('cwh', 'int1', 'int2', 'int3'):
            x = np.array([int(v) for v in x])  # whole numbers
        r['e'].state = x
        self.rec.add('assign', i=r['id'], x=fxv(x))
        self.obs(i, 'gave')
        return x

    def scribble_got(self, i):
        r = self.ents[i]
        for a in ATTRS[r['cfg'].cls]:
            c = Called(lambda: getattr(r['e'], a))
            if c.err == '':
                ruin(c.value)
        self.obs(i, 'got')

    def scribble_gave(self, i):
        r = self.ents[i]
        for a in r['passed']:
            ruin(a)
        self.obs(i, 'gave')

    def scribble_matrices(self, i):
        r = self.ents[i]
        for k, a in r['keep'].items():
            if r['cfg'].cls != 'syn' or (r['cfg'].kind == 'lin' and k in ('A', 'B')):
                ruin(a)
        self.obs(i, 'gave')

    def args(self, i):
        """calls of the dynamics: arguments and results are the caller's"""
        r, rng = self.ents[i], self.rng
        cfg, dyn = r['cfg'], r['e'].dynamics
        if cfg.samples or cfg.method in ('RK4', 'Euler-bad'):
            return
        x = np.array(state_of(cfg, rng, 'any'), dtype=float)
        u = np.array(clip(cfg, u_of(cfg, rng, 'mixed')), dtype=float)
        h = rng.choice([0.0, duration(cfg, rng)])
        before = fxv(x) + fxv(u)
        fn = rng.choice(['step', 'dot', 'jaxdot'])
        if fn == 'step':
            c = Called(lambda: dyn.step(h, x, u))
        elif fn == 'dot':
            c = Called(lambda: (dyn.compute_state_dot(0.0, x, u), ))
        else:
            c = Called(lambda: (dyn.compute_state_dot_jax(x, 0.0, u), ))
        after = fxv(x) + fxv(u)
        for v in c.value or ():
            ruin(v)
        self.rec.add('args', i=r['id'], k=r['k'], fn=fn, err=c.err, msg=c.msg, before=before, after=after, later=fxv(x) + fxv(u))
        self.obs(i, 'gave')

    def read(self, i):
        r = self.ents[i]
        for a in READ:
            Called(lambda: getattr(r['e'], a, None))
        j = self.rng.randrange(len(self.ents))
        Called(lambda: r['e'] == self.ents[j]['e'])
        Called(lambda: repr(r['e']))
        if hasattr(r['e'], 'register_lead'):
            Called(lambda: r['e'].register_lead(self.ents[j]['e']))
        self.obs(i, 'read')
        self.obs(j, 'read')

    def others(self, i):
        js = [j for j in range(len(self.ents)) if j != i]
        if js:
            self.obs(self.rng.choice(js), 'other')


def limited(cfg):
    p = cfg.p
    return any(np.isfinite(v) for k in ('smin', 'smax', 'dmin', 'dmax') for v in p[k])


def plain(cfg):
    """the configuration without trajectory samples"""
    if cfg.cls == 'syn':
        return syn.SynConfig(cfg.kind, cfg.p, method=cfg.method, jax=cfg.jax)
    return Config(cfg.cls, cfg.given, cfg.limform, method=cfg.method)


def safe(v, n):
    g = good(v, n)
    return fxv(g) if g is not None else []


def snap(a):
    if isinstance(a, dict):
        return dict(a)
    if isinstance(a, np.ndarray):
        return (a.dtype, a.copy())
    if isinstance(a, list):
        return list(a)
    return None


def same(before, a):
    if isinstance(a, dict):
        return before == a and list(before) == list(a)
    if isinstance(a, np.ndarray):
        return before[0] == a.dtype and before[1].shape == a.shape and bool((before[1] == a).all())
    if isinstance(a, list):
        return before == a
    return True


def ruin(a):
    """overwrite everything in an array, list or dictionary"""
    try:
        if isinstance(a, dict):
            for k in list(a):
                a[k] = 77.0
            a['junk'] = 1.0
        elif isinstance(a, list):
            for i in range(len(a)):
                a[i] = 77.0
            a.append(5.0)
        elif isinstance(a, np.ndarray):
            a[...] = a * 2 + 77
        else:
            v = np.asarray(a)
            if v.flags.writeable:
                v[...] = 77
    except Exception:  # pylint: disable=broad-except
        pass  # read-only: nothing to share


class Recorder:

    def __init__(self, path):
        self.path, self.events, self.reqs, self.k, self.ids = path, [], [], 0, 0

    def cfg(self, cfg):
        self.k += 1
        meth = 'RK45' if cfg.method is None else cfg.method
        if meth not in ('RK45', 'Euler', 'RK45_JAX'):
            meth = 'bad'
        elif meth == 'Euler' and cfg.samples:
            meth = 'unsupported'
        elif meth == 'RK45_JAX':
            meth = 'bad' if not getattr(cfg, 'jax', False) else 'unsupported'
        self.add('cfg', id=self.k, cls=cfg.cls, p=cfg.enc(), meth=meth, samples=cfg.samples)
        return self.k

    def next_id(self):
        self.ids += 1
        return self.ids

    def add(self, ev, **kw):
        self.events.append((ev, kw))

    def add_ev(self, ev, kw):
        self.events.append((ev, kw))

    def probe(self, ev, req):
        self.reqs.append((ev, req))

    def finish(self):
        d = tempfile.mkdtemp(prefix='probe-', dir=os.path.dirname(os.path.abspath(self.path)))
        a, b = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(a, 'wb') as f:
            pickle.dump([r for _, r in self.reqs], f)
        subprocess.run([sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe.py'), a, b],
                       check=True)
        with open(b, 'rb') as f:
            res = pickle.load(f)
        for p in (a, b):
            os.unlink(p)
        os.rmdir(d)
        for (ev, req), (err, y, dd) in zip(self.reqs, res):
            n = cfg_dim(req[0])
            ev['perr'] = err
            ev['py'], ev['pd'] = safe(y, n), safe(dd, n)
        tr = Trace(self.path)
        for ev, kw in self.events:
            tr.add(ev, **kw)
        tr.close()
        return tr


def some_config(rng, cls=None, method=None, samples=0):
    cls = cls or rng.choice(ALL + ['syn'] * 7)
    method = method if method is not None else rng.choice(['Euler', 'Euler', 'RK45', None])
    if cls == 'syn':
        return syn.rand_syn(rng, method=method, samples=samples, limits=not samples)
    return rand_config(cls, rng, method=method, samples=samples)


def group(rec, rng, samples=False):
    """2-4 entities, some of the same class, the same name, the same configuration"""
    sc = Scenario(rec, rng)
    cls = rng.choice(ALL + ['syn'] * 6)
    first = None
    for j in range(rng.randint(2, 4)):
        n = rng.choice([0, 1, 2, 3, 5, rng.choice([7, 10, 24, 49])]) if samples else 0
        if samples:
            cfg = some_config(rng, rng.choice([c for c in ALL if c != 'sun'] + ['syn'] * 3), method=rng.choice(['RK45', 'RK45']), samples=n)
        elif first is not None and rng.random() < .3:
            cfg = first
        elif rng.random() < .5:
            cfg = some_config(rng, cls)
        else:
            cfg = some_config(rng)
        first = first or cfg
        sc.create(cfg, name=rng.choice(['e', 'e', 'f']), init=state_of(cfg, rng, 'in') if samples else None)
    return sc


def history(prop, rec, rng):
    samples = prop == 'C09'
    sc = group(rec, rng, samples)
    menu = dict(
        C01=['step'] * 8 + ['assign', 'bad'], C02=['step'] * 8 + ['same'] * 3 + ['assign', 'bad'],
        C03=['bad'] * 6 + ['step'] * 4 + ['assign'], C07=['got'] * 3 + ['gave'] * 3 + ['args'] * 2 + ['step'] * 5 + ['assign', 'mats', 'reassign'],
        C08=['step'] * 6 + ['read'] * 2 + ['restore'] * 3 + ['assign', 'bad', 'new', 'args'],
        C09=['step'] * 8 + ['read', 'bad', 'assign'])[prop]
    for _ in range(rng.randint(8, 14)):
        i = rng.randrange(len(sc.ents))
        r = sc.ents[i]
        op = rng.choice(menu)
        if op == 'step':
            if samples:
                sc.step(i, where='in')
            else:
                sc.step(i, where=rng.choice(['in', 'mixed', 'mixed', 'out']))
        elif op == 'bad':
            k = rng.choice(['name', 'type', 'length'])
            if r['cfg'].cls == 'sun' and k == 'length':
                k = 'type'
            sc.step(i, invalid=k)
            if rng.random() < .7:
                sc.step(i, where='in', kind='none' if rng.random() < .5 else None)
        elif op == 'same':  # the same vector in every form from the same state
            base = r['e'].state
            act = sc.form(r['cfg'], None, 'in', 'arr')
            v = act[2]
            if not v:
                continue
            sc.step(i, act=act, h=0.125)
            for kind in ('list', 'dict', 'jax'):
                if kind == 'dict' and not cfg_names(r['cfg']):
                    continue
                sc.assign(i, x=base)
                if kind == 'list':
                    a = ([float(x) for x in v], dict(kind='list', names=[], vals=fxv(v)), [f32(x) for x in v])
                elif kind == 'dict':
                    order = list(range(len(v)))
                    rng.shuffle(order)
                    names = cfg_names(r['cfg'])
                    d = {names[j]: v[j] for j in order}
                    a = (d, dict(kind='dict', names=list(d), vals=fxv(list(d.values()))), v)
                else:
                    import jax.numpy as jnp
                    ja = jnp.array(v)
                    w = [float(x) for x in np.asarray(ja)]
                    a = (ja, dict(kind='jax', names=[], vals=fxv(w)), w)
                sc.step(i, act=a, h=0.125)
        elif op == 'assign':
            x = sc.assign(i, 'in' if samples else 'any')
            ruin(x)
            sc.obs(i, 'gave')
        elif op == 'reassign':  # the state of one entity handed to another of the same class
            js = [j for j in range(len(sc.ents)) if sc.ents[j]['cfg'].cls == r['cfg'].cls and
                  cfg_dim(sc.ents[j]['cfg']) == cfg_dim(r['cfg'])]
            j = rng.choice(js)
            sc.whole = False
            sc.assign(j, x=r['e'].state)
            sc.whole = True
            sc.step(j, where='in')
            sc.obs(i, 'gave')
        elif op == 'got':
            sc.scribble_got(i)
        elif op == 'gave':
            sc.step(i, kind=rng.choice(['arr', 'list', None, 'arr']) if cfg_m(r['cfg']) else None)
            sc.scribble_gave(i)
            sc.step(i, kind='none')
        elif op == 'mats':
            sc.scribble_matrices(i)
            sc.step(i)
        elif op == 'args':
            sc.args(i)
        elif op == 'read':
            sc.read(i)
        elif op == 'restore':
            saved = r['e'].state
            act = sc.step(i, h=0.125)
            sc.step(i)
            if len(sc.ents) > 1 and rng.random() < .5:
                sc.step((i + 1) % len(sc.ents))
            sc.assign(i, x=saved)
            sc.step(i, act=act, h=0.125)
        elif op == 'new':
            if len(sc.ents) < 6:
                sc.create(r['cfg'] if rng.random() < .5 else some_config(rng, r['cfg'].cls), name='e')
                sc.obs(i, 'other')
        sc.others(i)
    for j in range(len(sc.ents)):
        sc.obs(j, 'other')


def unusable(rec, rng):
    """entities whose method is unknown or whose sampling is not supported: every step is refused, and nothing changes"""
    sc = Scenario(rec, rng)
    cls = rng.choice(ALL + ['syn'] * 3)
    choice = rng.choice(['name', 'jax', 'combo']) if cls != 'sun' else rng.choice(['name', 'jax'])
    if choice == 'name':
        cfg = some_config(rng, cls, method=rng.choice(['RK4', 'euler', 'rk45', '', 'RK23', 'RK45 ', 'Euler_JAX']))
    elif choice == 'jax':
        cfg = some_config(rng, cls, method='RK45_JAX')
    else:
        cfg = some_config(rng, cls, method='Euler', samples=rng.randint(1, 4))
    i = sc.create(cfg)
    j = sc.create(some_config(rng, cls))
    for _ in range(3):
        sc.step(i, invalid=rng.choice([None, None, None, 'name', 'type']), where='in')
        sc.obs(i, 'rejected')
    sc.assign(i)
    sc.step(i)
    sc.obs(i, 'rejected')
    sc.step(j)
    sc.obs(j, 'other')


def run(prop, seed, n, path):
    rng = Rng(f'{prop}-{seed}')
    rec = Recorder(path)
    for _ in range(n):
        history(prop, rec, rng)
        if prop == 'C03':
            unusable(rec, rng)
    return rec.finish()


from lib import DIM  # noqa: E402
