"""Drivers for the aerobench utilities C28-C30: see spec/TrUtil.tla."""
import contextlib
import io
import math

from lib import *  # noqa: F401,F403
from lib import Called, Rng, Trace, fx, fxv, np


def mod():
    from safe_autonomy_dynamics.external.aerobench import util
    return util


class Drv:

    def __init__(self, prop, seed):
        self.rng = Rng(f'{seed}.{prop}.util')
        self.u = mod()
        self.h = 0

    # ------------------------------------------------------------------ C28
    def look_ivp(self, s):
        has = s.tprev is not None
        return dict(t=fx(s.t), y=fxv(s.y), st=str(s.status), has=has, tp=fx(s.tprev if has else 0.0), yp=fxv(s.yprev) if has else [])

    def der(self, n):
        rng = self.rng
        A = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        b = [rng.uniform(-2, 2) for _ in range(n)]
        w = rng.uniform(-2, 2)
        kind = rng.choice(['lin', 'time', 'const', 'buffer'])
        buf = np.zeros(n)

        def f(t, y):
            if kind == 'const':
                return np.array(b)
            v = np.array(A) @ np.asarray(y) + np.array(b) * (math.sin(w * t) if kind != 'lin' else 1.0)
            if kind == 'buffer':  # the same array every time
                buf[:] = v
                return buf
            return v

        return f

    def new_ivp(self):
        rng, tr = self.rng, self.tr
        n = rng.randint(1, 3)
        kind = rng.choice(['dyadic', 'decimal', 'any', 'any', 'near', 'odd'])
        kw = {}
        if kind == 'dyadic':
            t0 = rng.randint(-8, 8) / 8
            step = rng.choice([1 / 8, 1 / 4, 3 / 8, 1.0])
            tend = t0 + rng.randint(1, 12) / 8
            tol = rng.choice([0.0, 1 / 16, None, 1 / 8])
        elif kind == 'decimal':
            t0 = rng.choice([0.0, 0.1, 10.0, 1000.0])
            step = rng.choice([0.1, 0.01, 0.3, 1 / 3])
            tend = t0 + step * rng.randint(1, 9)
            tol = rng.choice([None, None, 1e-6])
        elif kind == 'near':  # the last step ends inside or just outside the tolerance
            t0, step = rng.uniform(-2, 2), rng.uniform(0.05, 1)
            tol = rng.choice([1e-9, 1e-3, None])
            tend = t0 + step * rng.randint(1, 5) + rng.choice([-1, 1]) * (tol or 1e-9) * rng.choice([0.5, 0.9, 1.1, 2.0])
        elif kind == 'odd':
            t0 = rng.uniform(-2, 2)
            step = rng.choice([0, 0.0, -0.1, 0.1, 0.1])
            tend = t0 + rng.choice([0.0, -1.0, 0.5, -1e-6])
            tol = None
        else:
            t0, step = rng.uniform(-5, 5), rng.uniform(0.05, 1)
            tend = t0 + rng.uniform(0.01, 4)
            tol = rng.choice([None, None, 1e-9, 1e-4])
        if tol is not None:
            kw['time_tol'] = tol
        y0 = np.array(rng.vec(n, -3, 3))
        keep0 = y0.copy()
        calls = []
        f = self.der(n)

        def rec(t, y):
            v = f(t, y)
            calls.append((float(t), np.array(y, dtype=float), np.array(v, dtype=float)))
            return v

        if kind == 'odd' and step == 0 and rng.random() < 0.5:
            r = Called(lambda: self.u.Euler(rec, t0, y0, tend, **kw))
        else:
            r = Called(lambda: self.u.Euler(rec, t0, y0, tend, step=step, **kw))
        self.h += 1
        c = dict(t0=fx(t0), tend=fx(tend), step=fx(step), tol=fx(1e-9 if tol is None else tol))
        o = self.look_ivp(r.value) if not r.err else dict(t=fx(0), y=[], st='', has=False, tp=fx(0), yp=[])
        tr.add('ivp', h=f'i{self.h}', c=c, y0=fxv(y0), o=o, keep=bool(np.array_equal(y0, keep0)), err=r.err, msg=r.msg)
        if r.err:
            return None
        if rng.random() < 0.3:  # the vector stays the caller's
            y0 += 1.0
            keep0 = y0.copy()
        return dict(h=f'i{self.h}', s=r.value, calls=calls, y0=y0, keep=keep0, held=[], t0=t0, tend=tend)

    def ivp(self):
        rng, tr = self.rng, self.tr
        live = [z for z in (self.new_ivp() for _ in range(rng.randint(1, 3))) if z]
        for _ in range(rng.randint(4, 40) if live else 0):
            z = rng.choice(live)
            s = z['s']
            keep = lambda: bool(np.array_equal(z['y0'], z['keep']))  # noqa: E731
            r = rng.random()
            if r < 0.7:
                z['calls'].clear()
                q = Called(s.step)
                cs = [dict(t=fx(t), y=fxv(y)) for t, y, _ in z['calls']]
                yd = fxv(z['calls'][0][2]) if z['calls'] else fxv(np.zeros(len(s.y)))
                tr.add('step', h=z['h'], calls=cs, yd=yd, o=self.look_ivp(s), keep=keep(), err=q.err, msg=q.msg)
            elif r < 0.8:
                tr.add('look', h=z['h'], o=self.look_ivp(s), keep=keep())
            elif r < 0.92:
                t = rng.choice([rng.uniform(z['t0'], z['tend']), s.t, s.tprev if s.tprev is not None else s.t,
                                rng.uniform(s.tprev, s.t) if s.tprev is not None else s.t])
                q = Called(lambda: s.dense_output())
                v = Called(lambda: q.value(t)) if not q.err else q
                if not q.err:
                    z['held'].append((q.value, self.look_ivp(s)))
                tr.add('dense', h=z['h'], t=fx(t), v=fxv(v.value) if not v.err else [], err=v.err, msg=v.msg)
                if not v.err and rng.random() < 0.3:
                    v.value[...] = 99.0  # the caller's own array
            elif z['held']:
                fun, at = rng.choice(z['held'])
                t = rng.uniform(z['t0'], z['tend'])
                v = Called(lambda: fun(t))
                tr.add('held', h=z['h'], s=at, t=fx(t), v=fxv(v.value) if not v.err else [], err=v.err, msg=v.msg)

    # ------------------------------------------------------------------ C29
    nlong = 0

    def pair(self, lo, hi):
        a, b = sorted([self.rng.uniform(lo, hi), self.rng.uniform(lo, hi)])
        r = self.rng.random()
        if r < 0.1:
            a = -math.inf
        elif r < 0.2:
            b = math.inf
        elif r < 0.25:
            a = b
        elif r < 0.35:
            a = 0.0 if b >= 0 else a
        return (a, b)

    def verify(self, long_key=None):
        """long_key: a long run in which only this quantity is ever out, late"""
        rng, tr = self.rng, self.tr
        deg = math.radians
        spec = dict(altitude=(0, 45000), Nz=(-5, 9), v=(300, 2500), alpha=(deg(-10), deg(45)))
        lim = {}
        for k, (lo, hi) in spec.items():
            if rng.random() < 0.6 or k == long_key:
                lim[k] = self.pair(lo, hi)
        if rng.random() < 0.6 or long_key == 'psMaxAccelDeg':
            lim['psMaxAccelDeg'] = rng.choice([500, 0, 0.0, rng.uniform(-10, 500), 90.0, 30])
        if rng.random() < 0.6 or long_key == 'betaMaxDeg':
            lim['betaMaxDeg'] = rng.choice([30, 0, 5.0, rng.uniform(-5, 40)])
        kw = {k: (rng.choice([tuple, list, np.array])(v) if isinstance(v, tuple) else v) for k, v in lim.items()}
        for k in list(spec) + ['psMaxAccelDeg', 'betaMaxDeg']:
            if k not in kw and rng.random() < 0.3:
                kw[k] = None
        llc, width = None, 13
        if rng.random() < 0.6:
            from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
            llc, width = LowLevelController(), 16
        n = rng.choice([0, 1, 2, 3, rng.randint(1, 12), 13, 16, 26])
        long = rng.random()
        if long < 0.02:
            n = rng.choice([64, 101, 257])
        if long_key:
            n = rng.choice([1025, 1501, 2100])
        X, nz, ps = [], [], []

        def within(k, lo, hi):
            if k not in lim:
                return rng.uniform(2 * lo - hi, 2 * hi - lo)
            a, b = max(lim[k][0], lo - hi), min(lim[k][1], 2 * hi)
            return rng.choice([rng.uniform(a, b), rng.uniform(a, b), a, b])

        def under(k, hi):
            m = lim.get(k, hi)
            return deg(rng.choice([rng.uniform(-2 * hi, m) if m > -2 * hi else m - 1, m - 1e-6, m - rng.uniform(0, 5), -3 * hi]))

        for _ in range(n):
            x = [rng.uniform(-50, 50) for _ in range(width)]
            x[0], x[1], x[11] = within('v', 300, 2500), within('alpha', deg(-10), deg(45)), within('altitude', 0, 45000)
            x[2] = under('betaMaxDeg', 30)
            X.append(x)
            nz.append(within('Nz', -5, 9))
            ps.append(under('psMaxAccelDeg', 300))
        if long_key or n and rng.random() < 0.6:  # one quantity leaves its range at one instant
            for _ in range(1 if long_key else rng.choice([1, 1, 2])):
                i = rng.choice([0, n - 1, rng.randrange(n)])
                k = rng.choice(list(lim) or ['v'])
                if long_key:
                    k, i = long_key, rng.randint(n - 20, n - 1)
                d = rng.choice([1e-6, 1e-3, 1.0, 1e4])
                if k in spec:
                    lo, hi = lim.get(k, spec[k])
                    v = rng.choice([lo - d, hi + d, math.nan if rng.random() < 0.1 else hi + d])
                    if math.isinf(v):
                        continue
                    if k == 'Nz':
                        nz[i] = v
                    else:
                        X[i][dict(altitude=11, v=0, alpha=1)[k]] = v
                elif k == 'betaMaxDeg':
                    X[i][2] = deg(lim[k] + d)
                else:
                    ps[i] = deg(lim[k] + d)
        states = np.array(X, dtype=float).reshape(n, width)
        asl = rng.choice([list, np.array])
        res = dict(states=states, Nz_list=asl(nz), ps_list=asl(ps), status='finished', times=[float(i) for i in range(n)])
        s0 = states.copy()

        def go():
            ver = self.u.SafetyLimitsVerifier(self.u.SafetyLimits(**kw), llc) if llc or rng.random() < 0.5 else \
                self.u.SafetyLimitsVerifier(self.u.SafetyLimits(**kw))
            go.ver = ver
            return ver.verify(res)

        r = Called(go)
        r2 = Called(lambda: go.ver.verify(res))
        keep = bool(np.array_equal(s0, states, equal_nan=True) and list(res['Nz_list']) == list(nz) and list(res['ps_list']) == list(ps)) \
            if not any(math.isnan(v) for v in nz) else True
        enc = dict(altitude=fxv(lim.get('altitude', [])), Nz=fxv(lim.get('Nz', [])), v=fxv(lim.get('v', [])), alpha=fxv(lim.get('alpha', [])),
                   ps=fxv([lim['psMaxAccelDeg']] if 'psMaxAccelDeg' in lim else []), beta=fxv([lim['betaMaxDeg']] if 'betaMaxDeg' in lim else []))
        tr.add('verify', lim=enc, x=[fxv(x[:12]) for x in X], nz=fxv(nz), ps=fxv(ps), width=width, keep=keep, err=r.err, err2=r2.err, msg=r.msg)

    # ------------------------------------------------------------------ C30
    def new_obj(self):
        rng, u = self.rng, self.u
        from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import CtrlLimits

        class Box(u.Freezable):
            kind = 'plain'

            def __init__(self):
                self.a = 'a'
                self.b = 'b'

        class Sealed(Box):

            def __init__(self):
                super().__init__()
                self.c = 'c'
                self.freeze_attrs()

        k = rng.choice(['box', 'box', 'box', 'sealed', 'limits', 'ctrl', 'euler', 'verifier'])
        lim = dict(altitude='x')
        o = dict(box=Box, sealed=Sealed, limits=lambda: u.SafetyLimits(**lim), ctrl=CtrlLimits,
                 euler=lambda: u.Euler(lambda t, y: y, 0.0, np.zeros(1), 1.0, step=0.5), verifier=lambda: u.SafetyLimitsVerifier('l'))[k]
        r = Called(o)
        self.h += 1
        h = f'o{self.h}'
        ob = r.value
        self.tr.add('obj', h=h, o=self.fields(ob), frozen=k in ('sealed', 'limits', 'ctrl', 'euler'), err=r.err, msg=r.msg)
        return h, ob

    @staticmethod
    def fields(o):
        return {k: (v if isinstance(v, str) else type(v).__name__) for k, v in vars(o).items() if k != '_frozen'}

    def objects(self):
        rng, tr = self.rng, self.tr
        live = [self.new_obj() for _ in range(rng.randint(1, 4))]
        for _ in range(rng.randint(5, 30)):
            h, o = rng.choice(live)
            r = rng.random()
            if r < 0.7:
                pool = list(vars(o)) + ['a', 'b', 'c', 'd', 'fresh', 'kind', 'Altitude', 'frozen', 'A']
                key = rng.choice([p for p in pool if p != '_frozen'])
                val = rng.choice(['p', 'q', 'r']) + str(rng.randrange(9))
                known = [n for n in dir(type(o)) if not n.startswith('_') and not callable(getattr(type(o), n))]
                if rng.random() < 0.5:
                    q = Called(lambda: setattr(o, key, val))
                else:
                    q = Called(lambda: o.__setattr__(key, val))
                tr.add('set', h=h, key=key, v=val, known=known, o=self.fields(o), err=q.err, msg=q.msg)
            elif r < 0.82:
                q = Called(o.freeze_attrs)
                tr.add('freeze', h=h, o=self.fields(o), err=q.err, msg=q.msg)
            else:
                tr.add('olook', h=h, o=self.fields(o))
            if rng.random() < 0.05:
                live.append(self.new_obj())
        for h, o in live:
            tr.add('olook', h=h, o=self.fields(o))

    def helpers(self):
        rng, tr = self.rng, self.tr
        v = rng.choice([rng.uniform(-10, 10), float(rng.randint(-20, 20)), -0.0, 0.0, rng.uniform(-1, 1), rng.uniform(-1e9, 1e9),
                        rng.randint(-5, 5) + rng.choice([1e-12, -1e-12]), 0.9999999999999999, -0.9999999999999999, 1e15 + 0.5])
        v = rng.choice([float, np.float64])(v)
        r = Called(lambda: self.u.fix(v))
        tr.add('help', name='fix', a=fx(v), v=fx(r.value) if not r.err else fx(0.5), err=r.err, msg=r.msg)
        w = rng.choice([v, 0, 1, -1, rng.randint(-9, 9), 1e-300, -1e-300, math.inf, -math.inf])
        if abs(w) > 1e-20 or w == 0:
            r = Called(lambda: self.u.sign(w))
            tr.add('help', name='sign', a=fx(w), v=fx(r.value) if not r.err else fx(0.5), err=r.err, msg=r.msg)
        if rng.random() < 0.1:
            r = Called(lambda: (list(self.u.get_state_names()), {k: int(v) for k, v in vars(self.u.StateIndex).items() if not k.startswith('_')}))
            tr.add('help', name='names', names=r.value[0] if not r.err else [], index=r.value[1] if not r.err else dict(VT=-1), err=r.err)

    def extract(self):
        rng, tr = self.rng, self.tr

        class Llc:

            def __init__(self, m):
                self.m = m

            def get_num_integrators(self):
                return self.m

        from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
        m = rng.choice([3, 3, 0, 1, 5])
        llc = LowLevelController() if m == 3 else Llc(m)
        w = 13 + m
        na, n = rng.choice([1, 2, 2, 3, 4]), rng.randint(1, 4)
        states = np.array([[rng.uniform(-9, 9) for _ in range(w * na)] for _ in range(n)])
        res = dict(status='finished', times=[0.25 * i for i in range(n)], modes=[rng.choice(['up', 'down']) for _ in range(n)], states=states,
                   runtime=1.0)
        ext = {}
        if rng.random() < 0.6:
            keys = ['xd_list', 'ps_list', 'Nz_list', 'Ny_r_list', 'u_list']
            cnt = rng.choice([n, n, n - 1, n + 1])
            for key in keys:
                def one():
                    return np.array(rng.vec(3)) if key in ('xd_list', 'u_list') else rng.uniform(-5, 5)
                ext[key] = [[one() for _ in range(na)] if na > 1 else one() for _ in range(max(cnt, 0))]
                if na > 1 and rng.random() < 0.3:
                    ext[key] = [tuple(v) for v in ext[key]]
            res.update({k: list(v) for k, v in ext.items()})
        s0 = states.copy()
        e = lambda v: fxv(np.atleast_1d(v))  # noqa: E731
        for k in range(na):
            r = Called(lambda: self.u.extract_single_result(res, k, llc))
            kw = dict(got=[], sub={'_': []}, times2=[], status2='', modes2=[])
            if not r.err:
                g = r.value
                kw = dict(got=[fxv(row) for row in np.asarray(g['states'])], times2=fxv(g['times']), status2=str(g['status']), modes2=list(g['modes']),
                          sub={'_': [], **{key: [e(v) for v in g[key]] for key in ext if key in g}})
            enc = {'_': [], **{key: [[e(a) for a in v] if na > 1 else e(v) for v in ext[key]] for key in ext}}
            keep = bool(np.array_equal(s0, states)) and len(res) == 5 + len(ext)
            tr.add('extract', k=k, many=na > 1, width=w, states=[fxv(row) for row in s0], times=fxv(res['times']), status=res['status'],
                   modes=res['modes'], ext=enc, keep=keep, err=r.err, msg=r.msg, **kw)

    def printed(self):
        rng, tr = self.rng, self.tr
        nr, nc = rng.randint(1, 4), rng.randint(1, 4)
        cols = [rng.choice(['a', 'bb', 'alpha', 'throttle', 'beta_dot']) + str(i) for i in range(nc)]
        rows = [rng.choice(['r', 'row', 'longlabel']) + str(i) for i in range(nr)]
        mat = [[round(rng.uniform(0.2, 900), rng.randint(0, 6)) if rng.random() < 0.8 else -round(rng.uniform(1, 900), 2) for _ in range(nc)]
               for _ in range(nr)]
        mode = rng.choice(['str', 'none', 'empty'])
        title = rng.choice(['A', 'x', 'eigenvalues', '{main_label}'])
        arg = mat if nr > 1 or rng.random() < 0.5 else mat[0]
        out = io.StringIO()

        def go():
            with contextlib.redirect_stdout(out):
                self.u.printmat(rng.choice([np.array, list])(arg), title, dict(str=' '.join(rows), none=None, empty=[])[mode], ' '.join(cols))

        r = Called(go)
        kw = dict(title='', cols=[], rows=[], m=[])
        if not r.err:
            L = out.getvalue().splitlines()
            try:
                body = [ln.split() for ln in L[2:]]
                kw = dict(title=L[0].replace(' =', '').strip(), cols=L[1].split(), rows=[b[0] for b in body] if mode == 'str' else [],
                          m=[fxv([float(v) for v in (b[1:] if mode == 'str' else b)]) for b in body])
            except (ValueError, IndexError):
                kw['title'] = 'unreadable'
        tr.add('print', title0=title, cols0=cols, rows0=rows if mode == 'str' else [], m0=[fxv(v) for v in mat], err=r.err, msg=r.msg, **kw)


def run(prop, seed, n, path):
    d = Drv(prop, seed)
    tr = d.tr = Trace(path)
    for _ in range(n):
        if prop == 'C28':
            d.ivp()
        elif prop == 'C29':
            d.verify()
            if d.rng.random() < 0.01:
                d.verify(['altitude', 'Nz', 'v', 'alpha', 'psMaxAccelDeg', 'betaMaxDeg'][(int(str(seed).split('.')[-1]) + d.nlong) % 6])
                d.nlong += 1
        else:
            d.objects()
            for _ in range(3):
                d.helpers()
            d.extract()
            d.printed()
    tr.close()
    return tr
