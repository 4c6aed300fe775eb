"""Drivers for the F-16 model C22-C27: see spec/TrAero.tla."""
import math

from lib import *  # noqa: F401,F403
from lib import Called, Rng, Trace, fx, fxv, np

TABLES = ['cl', 'cm', 'cn', 'cx', 'cy', 'cz', 'dampp', 'dlda', 'dldr', 'dnda', 'dndr']


def mods():
    import importlib
    base = 'safe_autonomy_dynamics.external.aerobench.'
    low = base + 'lowlevel.'
    fn = {n: getattr(importlib.import_module(low + n), n) for n in TABLES + ['tgear', 'rtau', 'pdot', 'thrust', 'adc', 'conf16', 'clf16']}
    fn['morelli'] = importlib.import_module(low + 'morellif16').Morellif16
    fn['eom'] = importlib.import_module(low + 'subf16_model').subf16_model
    fn['closed'] = importlib.import_module(base + 'controlled_f16').controlled_f16
    fn['llc'] = importlib.import_module(low + 'low_level_controller').LowLevelController
    return fn


class Drv:

    def __init__(self, prop, seed):
        self.rng = Rng(f'{seed}.{prop}.aero')
        self.fn = mods()

    last = None

    def again(self, key, a, rel=1e-4):
        """sometimes (almost) the arguments of the previous call"""
        rng = self.rng
        self.last = self.last or {}
        p = self.last.get(key)
        if p is not None and rng.random() < 0.25:
            a = list(p)
            i = rng.randrange(len(a))
            a[i] += rng.choice([0.0, 1e-7, 1e-5, 1e-4, 1e-3]) * rng.sgn() * max(abs(a[i]), 1e-2)
        self.last[key] = list(a)
        return a

    def num(self, v):
        """the same number in one of the numeric types callers use"""
        r = self.rng.random()
        if float(v).is_integer() and r < 0.15:
            return int(v)
        return np.float64(v) if r < 0.6 else float(v)

    def near(self, v):
        """a point at, just beside or around a breakpoint"""
        rng = self.rng
        return v + rng.choice([0.0, 0.0, 1e-9, -1e-9, rng.uniform(-0.2, 0.2), rng.uniform(-5, 5)])

    def angle(self, breaks, lo, hi):
        r = self.rng.random()
        if r < 0.5:
            return self.near(self.rng.choice(breaks))
        if r < 0.9:
            return self.rng.uniform(lo, hi)
        return self.rng.sgn() * self.rng.uniform(hi, 4 * hi)

    def alpha(self):
        return self.angle(range(-10, 50, 5), -20, 60)

    def beta(self, step):
        return self.angle(range(-30, 31, step), -40, 40)

    def elev(self):
        return self.angle([-24, -12, 0, 12, 24], -30, 30)

    def table_args(self, n):
        rng = self.rng
        if n in ('cl', 'cn'):
            return [self.alpha(), self.beta(5)]
        if n in ('cm', 'cx'):
            return [self.alpha(), self.elev()]
        if n == 'cy':
            return [self.beta(5), rng.uniform(-25, 25), rng.uniform(-35, 35)]
        if n == 'cz':
            return [self.alpha(), self.beta(5), self.elev()]
        if n == 'dampp':
            return [self.alpha()]
        return [self.alpha(), self.beta(10)]

    def tab(self, n, a, exact=False):
        a = a if exact else self.again(n, a)
        b = [self.num(v) for v in a]
        r = Called(lambda: self.fn[n](*b))
        v = fxv(r.value) if not r.err else []
        self.held.keep(r.value)
        if len(self.held.items) > 40:
            self.held.check()
        self.tr.add('tab', name=n, a=fxv(a), v=v, err=r.err, msg=r.msg)

    def grid(self, n, step):
        """every breakpoint (step 2: also every cell midpoint) of a table, and one step beyond its ends"""
        al = [v / step for v in range(-15 * step, 50 * step + 1, 5)]
        if n in ('cl', 'cn'):
            ax = [v / step for v in range(-35 * step, 35 * step + 1, 5)]
        elif n in ('cm', 'cx', 'cz'):
            ax = [v / step for v in range(-36 * step, 36 * step + 1, 12)]
        else:
            ax = [v / step for v in range(-40 * step, 40 * step + 1, 10)]
        for a in al:
            if n == 'dampp':
                yield [a]
                continue
            for b in ax:
                if n == 'cy':
                    continue
                yield [a, self.rng.uniform(-30, 30), b] if n == 'cz' else [a, b]

    def adc(self):
        rng = self.rng
        a = [rng.choice([rng.uniform(50, 1500), 502.0, 1000]), rng.choice([0.0, 35000.0, 35000, 34999.999, 35000.001, 1000.0, rng.uniform(-500, 70000),
                                                                            rng.uniform(30000, 40000)])]
        r = Called(lambda: self.fn['adc'](*a))
        self.held.keep(r.value)
        self.tr.add('adc', a=fxv(a), v=fxv(r.value) if not r.err else [], err=r.err, msg=r.msg)

    # ------------------------------------------------------------------ engine
    def eng(self, n, a):
        b = self.again(n, a)
        if not (n == 'tgear' and not 0 <= b[0] <= 1):
            a = b
        b = [self.num(v) for v in a]
        if n == 'thrust':
            b[2] = float(b[2])  # the map takes floating-point Mach numbers only
        r = Called(lambda: self.fn[n](*b))
        self.tr.add('eng', name=n, a=fxv(a), v=fxv(r.value) if not r.err else [], err=r.err, msg=r.msg)

    def throttle(self):
        rng = self.rng
        return rng.choice([rng.uniform(0, 1), 0.0, 1.0, 0.77, 0.77 + rng.choice([1e-12, -1e-12, 1e-6, -1e-6]), rng.uniform(0.7, 0.85)])

    def power(self):
        rng = self.rng
        return rng.choice([rng.uniform(0, 100), rng.uniform(40, 60), 50.0, 0.0, 100.0, 60.0, 40.0, 50.0 + rng.choice([1e-9, -1e-9]), 25.0, 75.0])

    def mach(self):
        rng = self.rng
        return rng.choice([rng.uniform(0, 1), rng.uniform(0, 1.4), rng.choice([0.0, 0.2, 0.4, 0.6, 0.8, 1.0]), -rng.uniform(0, 0.1)])

    def altitude(self):
        rng = self.rng
        return rng.choice([rng.uniform(0, 50000), rng.uniform(0, 70000), rng.choice([0, 10000, 20000, 30000, 40000, 50000, 60000]),
                           -rng.uniform(0, 3000), rng.choice([1, 2, 3, 4, 5]) * 10000 + rng.choice([1e-6, -1e-6])])

    def engine(self):
        rng = self.rng
        self.eng('tgear', [self.throttle()])
        self.eng('rtau', [rng.choice([rng.uniform(-100, 100), rng.uniform(20, 55), 25.0, 50.0, 25 + 1e-9, 50 - 1e-9, 0.0])])
        p = self.power()
        self.eng('pdot', [p, rng.choice([self.power(), p, p + rng.uniform(-30, 30), p + rng.choice([25, 50, -25])])])
        self.eng('thrust', [self.power(), self.altitude(), self.mach()])

    def lag(self):
        rng = self.rng
        p = self.power()
        for _ in range(6):
            th = self.throttle()
            for _ in range(rng.randint(1, 4)):
                h = rng.choice([0.01, 0.05, 0.15])

                def go():
                    c = self.fn['tgear'](th)
                    return c, self.fn['pdot'](p, c)

                r = Called(go)
                if r.err:
                    self.tr.add('lag', p=fx(p), th=fx(th), h=fx(h), cmd=fx(0), pd=fx(0), err=r.err, msg=r.msg)
                    return
                self.tr.add('lag', p=fx(p), th=fx(th), h=fx(h), cmd=fx(r.value[0]), pd=fx(r.value[1]), err='')
                p = float(p + h * r.value[1])
                if not 0 <= p <= 100.5:
                    return

    # ------------------------------------------------------------------ polynomials
    LIM = [(-10, 45), (-30, 30), (-25, 25), (-21.5, 21.5), (-30, 30)]

    def mor_args(self):
        rng = self.rng
        a = []
        for lo, hi in self.LIM:
            d = rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(1.5 * lo, 1.5 * hi), lo, hi, 0.0, hi + rng.uniform(0, 1),
                            lo - rng.uniform(0, 1), lo + 1.0, hi - 1.0])
            a.append(math.radians(d))
        rates = [rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-0.3, 0.3)]) for _ in range(3)]
        xcg = rng.choice([0.35, 0.3, rng.uniform(0.2, 0.45)])
        ref = rng.choice([0.35, 0.35, rng.uniform(0.25, 0.4)])
        return a + rates + [rng.choice([11.32, rng.uniform(8, 14)]), rng.choice([30.0, rng.uniform(20, 40)]), rng.uniform(150, 1200), xcg, ref]

    def mor(self):
        a = self.again('mor', self.mor_args())
        b = [self.num(v) for v in a]
        r = Called(lambda: self.fn['morelli'](*b))
        self.held.keep(r.value)
        if len(self.held.items) > 10:
            self.held.check()
        self.tr.add('mor', a=fxv(a), v=fxv(r.value) if not r.err else [], err=r.err, msg=r.msg)
        if r.err:
            return
        c = [min(max(v, math.radians(lo)), math.radians(hi)) for v, (lo, hi) in zip(a, self.LIM)] + a[5:]
        if c != a:
            s = Called(lambda: self.fn['morelli'](*c))
            self.tr.add('same', v=fxv(r.value), w=fxv(s.value) if not s.err else [], err=s.err)

    # ------------------------------------------------------------------ equations of motion
    def state(self):
        rng = self.rng
        u = rng.uniform
        small = rng.random() < 0.3
        k = 0.1 if small else 1.0
        deg = math.radians
        x = [u(200, 1100), deg(u(-15, 50)) if not small else deg(u(-3, 12)), deg(u(-32, 32)) * k, u(-3.1, 3.1) * k, u(-1.3, 1.3) * k,
             rng.choice([u(-3.1, 3.1), u(-20, 20), 0.0]), u(-2, 2) * k, u(-1, 1) * k, u(-1, 1) * k, u(-5000, 5000), u(-5000, 5000),
             rng.choice([u(0, 30000), u(0, 60000), 35000.0, 1000.0, -u(0, 100)]), self.power()]
        for i in (2, 3, 4, 6, 7, 8, 9, 10):
            if rng.random() < 0.1:
                x[i] = 0.0
        if rng.random() < 0.2:
            x[1] = deg(rng.choice(range(-10, 50, 5)))
        return x

    def surfaces(self):
        rng = self.rng
        u = rng.uniform
        return [self.throttle(), rng.choice([u(-25, 25), u(-30, 30), 0.0, 12.0, -12.0]), rng.choice([u(-21.5, 21.5), u(-25, 25), 0.0]),
                rng.choice([u(-30, 30), u(-35, 35), 0.0])]

    def eom(self):
        rng = self.rng
        x, u = np.array(self.again('eomx', self.state())), np.array(self.again('eomu', self.surfaces()))
        model, shift = rng.choice(['stevens', 'morelli']), rng.random() < 0.7
        x0, u0 = x.copy(), u.copy()
        if rng.random() < 0.3:
            r = Called(lambda: self.fn['eom'](x, u, model, shift))
        elif shift:
            r = Called(lambda: self.fn['eom'](x, u, model))
        else:
            r = Called(lambda: self.fn['eom'](x, u, model, adjust_cy=False))
        keep = bool(np.array_equal(x, x0) and np.array_equal(u, u0))
        kw = {}
        if not r.err:
            xd, nz, ny, az, ay = r.value
            keep = keep and not np.shares_memory(xd, x)
            self.held.keep(xd)
            kw = dict(xd=fxv(xd), nz=fx(nz), ny=fx(ny), az=fx(az), ay=fx(ay))
        self.tr.add('eom', x=fxv(x0), u=fxv(u0), model=model, shift=shift, keep=keep, err=r.err, msg=r.msg, **kw)

    def full_state(self, mild):
        """16 states; mild: near the equilibrium so that the surfaces stay within their ranges"""
        rng = self.rng
        u = rng.uniform
        if not mild:
            return self.state() + [u(-5, 5), u(-5, 5), u(-5, 5)]
        return [502 + u(-50, 50), 0.0389 + u(-.05, .05), u(-.02, .02), u(-.5, .5), 0.0389 + u(-.2, .2), u(-3, 3), u(-.05, .05), u(-.1, .1),
                u(-.05, .05), u(-100, 100), u(-100, 100), u(500, 20000), u(0, 100), u(-.1, .1), u(-.02, .02), u(-.05, .05)]

    def uref(self):
        rng = self.rng
        u = rng.uniform
        return [u(-2, 6), u(-5, 5), u(-2, 2), rng.choice([u(0, 1), u(-1, 2), 0.0, 1.0])]

    def llc(self):
        rng = self.rng
        llc = self.fn['llc']() if rng.random() < 0.5 else self.fn['llc']('old')
        lo, hi = [0.0, -25.0, -21.5, -30.0], [1.0, 25.0, 21.5, 30.0]
        names = ['Throttle', 'Elevator', 'Aileron', 'Rudder']
        if rng.random() < 0.2:  # limits adjusted by the user (other controllers must keep theirs)
            i = rng.randrange(4)
            f = rng.choice([0.5, 0.9])
            nm = names[i] + 'Max' + ('Deg' if i else '')
            if hasattr(llc.ctrlLimits, nm):
                setattr(llc.ctrlLimits, nm, hi[i] * f)
                hi[i] *= f
        calls = []
        held = Held(self.tr, 'C22', 'llc')
        for _ in range(rng.randint(3, 6)):
            if calls and rng.random() < 0.3:
                x, r = rng.choice(calls)
            else:
                x, r = self.again('llcx', self.full_state(rng.random() < 0.6)), self.again('llcr', self.uref())
                calls.append((x, r))
            form = rng.choice([np.array, np.array, list])
            xa, ra = np.array(x), form(r)
            res = Called(lambda: llc.get_u_deg(ra, xa))
            keep = bool(np.array_equal(xa, np.array(x)) and list(ra) == list(r))
            kw = {}
            if not res.err:
                xc, ud = res.value
                kw = dict(xc=fxv(xc), u=fxv(ud))
                keep = keep and not np.shares_memory(np.asarray(xc), xa)
                if rng.random() < 0.3:
                    xc *= 0  # results belong to the caller
                    ud *= 0
                held.keep(xc, ud)
            self.tr.add('llc', x=fxv(x), uref=fxv(r), lo=fxv(lo), hi=fxv(hi), keep=keep, err=res.err, msg=res.msg, **kw)
            y = [rng.uniform(-5, 5) for _ in range(3)]
            res = Called(lambda: (llc.get_integrator_derivatives(ra, *y), llc.get_num_integrators()))
            kw = dict(d=fxv(res.value[0]), n=int(res.value[1])) if not res.err else dict(d=[], n=0)
            if not res.err:
                held.keep(res.value[0])
            self.tr.add('integ', uref=fxv(r), y=fxv(y), err=res.err, msg=res.msg, **kw)
        held.check()

    def closed(self):
        rng = self.rng
        llc = self.fn['llc']()
        for _ in range(2):
            x, r = np.array(self.again('clx', self.full_state(rng.random() < 0.6))), np.array(self.again('clr', self.uref()))
            x0, r0 = x.copy(), r.copy()
            model, v2 = rng.choice(['stevens', 'morelli']), rng.random() < 0.4
            if model == 'morelli' and rng.random() < 0.3:
                res = Called(lambda: self.fn['closed'](x, r, llc, v2_integrators=v2))
            else:
                res = Called(lambda: self.fn['closed'](x, r, llc, model, v2))
            keep = bool(np.array_equal(x, x0) and np.array_equal(r, r0))
            kw = {}
            if not res.err:
                xd, u, nz, ps, nyr = res.value
                self.held.keep(np.asarray(xd), np.asarray(u))
                kw = dict(xd=fxv(xd), u=fxv(u), nz=fx(nz), ps=fx(ps), nyr=fx(nyr))
            self.tr.add('closed', x=fxv(x0), uref=fxv(r0), model=model, v2=v2, keep=keep, err=res.err, msg=res.msg, **kw)

    # ------------------------------------------------------------------ trim
    def const(self):
        rng = self.rng
        u = rng.uniform
        g = u(-0.3, 0.5)
        phi = rng.choice([0.0, u(-1, 1)])
        return [g, math.sin(g), u(-.5, .5), u(-.5, .5), u(-.3, .3), phi, math.cos(phi), math.sin(phi), u(-.3, .3), rng.choice([0.0, 1.0]),
                rng.choice([0.0, 1.0])]

    def trim(self):
        rng = self.rng
        k = self.const()
        orient = rng.choice([1, 2, 3, 4])
        x, u = np.array(self.state()), np.array(self.surfaces())
        x0, u0 = x.copy(), u.copy()
        r = Called(lambda: self.fn['conf16'](x, u, k + [orient]))
        kw = {}
        if not r.err:
            kw = dict(y=fxv(r.value[0]), v=fxv(r.value[1]))
        self.tr.add('conf', x=fxv(x0), u=fxv(u0), k=fxv(k), orient=orient, err=r.err, msg=r.msg, **kw)
        # cost
        k = self.const()
        orient = rng.choice([1, 2, 3, 4])
        mild = rng.random() < 0.4
        st = self.full_state(True)[:13] if mild else self.state()
        if mild:
            k[2:5], k[8] = [0.0, 0.0, rng.uniform(-.05, .05)], 0.0
            st[6:9] = [0.0, 0.0, 0.0]
        st[11] = abs(st[11])
        x, u = np.array(st), np.array(self.surfaces())
        s = [self.throttle(), rng.uniform(-25, 25), rng.uniform(-.15, .6)]
        if mild:
            s[:3] = [0.1395 + rng.uniform(-.05, .05), -0.7496 + rng.uniform(-.3, .3), 0.0389 + rng.uniform(-.01, .01)]
        if rng.random() < 0.5:
            t = [rng.uniform(-21, 21), rng.uniform(-30, 30)] if not mild else [0.0, 0.0]
            s = s[:2] + t + [s[2], rng.uniform(-1, 1), rng.uniform(-1.2, 1.2)]
        if rng.random() < 0.5:
            s = np.array(s)
        x0, u0 = x.copy(), u.copy()
        model, shift = rng.choice(['stevens', 'morelli']), rng.random() < 0.6
        if model == 'stevens' and shift:
            r = Called(lambda: self.fn['clf16'](s, x, u, k + [orient]))
        else:
            r = Called(lambda: self.fn['clf16'](s, x, u, k + [orient], model, shift))
        self.clf(s, x0, u0, x, u, k, orient, model, shift, r)
        if rng.random() < 0.06:
            self.near_trim()

    def clf(self, s, x0, u0, x, u, k, orient, model, shift, r):
        xd = Called(lambda: self.fn['eom'](x.copy(), u.copy(), model, shift)[0])
        self.tr.add('clf', xd=fxv(xd.value) if not xd.err else [], s=fxv(s), x=fxv(x0), u=fxv(u0), k=fxv(k), orient=orient, model=model, shift=shift, y=fxv(x), v=fxv(u),
                    r=fx(r.value if not r.err else 0.0), err=r.err, msg=r.msg)

    def near_trim(self):
        """the points a search for a trimmed condition visits last"""
        from scipy.optimize import minimize
        rng = self.rng
        orient = rng.choice([1, 1, 2, 3, 4])
        model, shift = rng.choice(['stevens', 'morelli']), rng.random() < 0.6
        g = rng.uniform(-.1, .1) if orient == 2 else 0.0
        k = [g, math.sin(g), 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0]
        st = [rng.uniform(350, 700), 0.04, 0.0, 0.0, 0.04 + g, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, rng.uniform(500, 15000), 10.0]

        def cost(s):
            return self.fn['clf16'](list(s), np.array(st), np.zeros(4), k + [orient], model, shift)

        res = Called(lambda: minimize(cost, [0.2, -1.0, 0.05], method='Nelder-Mead', options=dict(maxiter=300, xatol=1e-12, fatol=1e-14)))
        if res.err:
            self.tr.add('clf', err=res.err, msg=res.msg)
            return
        best = [float(v) for v in res.value.x]
        for e in (0.0, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3):
            s = [v + e * rng.uniform(-1, 1) for v in best]
            x, u = np.array(st), np.zeros(4)
            x0, u0 = x.copy(), u.copy()
            r = Called(lambda: self.fn['clf16'](s, x, u, k + [orient], model, shift))
            self.clf(s, x0, u0, x, u, k, orient, model, shift, r)


class Held:
    """results handed out earlier stay as they were"""

    def __init__(self, tr, prop, what):
        self.tr, self.prop, self.what, self.items = tr, prop, what, []

    def keep(self, *arrays):
        for a in arrays:
            if isinstance(a, (np.ndarray, list)):
                self.items.append((a, np.array(a, dtype=float, copy=True)))

    def check(self):
        ok = all(np.array_equal(np.asarray(a, dtype=float), b, equal_nan=True) for a, b in self.items)
        arrays = [a for a, _ in self.items if isinstance(a, np.ndarray)]
        ok = ok and not any(np.shares_memory(a, b) for i, a in enumerate(arrays) for b in arrays[:i])
        self.tr.add('held', prop=self.prop, what=self.what, ok=bool(ok), n=len(self.items))
        self.items = []


def run(prop, seed, n, path):
    d = Drv(prop, seed)
    tr = d.tr = Trace(path)
    d.held = Held(tr, prop, 'results')
    if prop == 'C22':
        for _ in range(n):
            d.llc()
    elif prop == 'C23':
        for i in range(n):
            d.engine()
            if i % 4 == 0:
                d.lag()
    elif prop == 'C24':
        chunk = int(str(seed).split('.')[-1])
        for t in [TABLES[i] for i in range(len(TABLES)) if i % 8 == chunk % 8]:
            for a in d.grid(t, 2):
                d.tab(t, a, exact=True)
        for _ in range(n):
            t = d.rng.choice(TABLES)
            d.tab(t, d.table_args(t))
            if d.rng.random() < 0.2:
                d.adc()
    elif prop == 'C25':
        for _ in range(n):
            d.mor()
    elif prop == 'C26':
        for _ in range(n):
            d.eom()
            if d.rng.random() < 0.4:
                d.closed()
                d.held.check()
    else:
        for _ in range(n):
            d.trim()
    tr.close()
    return tr
