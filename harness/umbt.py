"""Replay of the transitions of spec/IvpMC, VerifyMC, FreezeMC and EngineMC in the real code."""
import json
import math

from lib import *  # noqa: F401,F403
from lib import Called, Rng, np


def num(o):
    """a number of the specification"""
    if o == [0]:
        return 0.0
    return o[0] * sum(a << (15 * i) for i, a in enumerate(o[1:])) / 2**75


class Base:

    def __init__(self, prop, seed):
        from safe_autonomy_dynamics.external.aerobench import util
        self.u = util
        self.prop, self.rng = prop, Rng(f'{seed}.{prop}.umbt')
        self.bad, self.n, self.sample = [], 0, None

    def say(self, clause, **kw):
        if len(self.bad) < 40:
            self.bad.append(dict(clause=f'{self.prop}.{clause}', **kw))


class Ivp(Base):

    def make(self, c, calls):

        def f(t, y):
            calls.append(float(t))
            T, Y = t * 8, y * 8
            return c['rate'][0] + c['rate'][1] * T + c['rate'][2] * Y

        y0 = np.array([c['y0'] / 8])
        return Called(lambda: self.u.Euler(f, c['t0'] / 8, y0, c['tend'] / 8, step=c['step'] / 8, time_tol=c['tol'] / 8)), y0

    def run(self, ts):
        paths = {}
        for t in ts:
            paths.setdefault(json.dumps(t['c'], sort_keys=True), []).append(t)
        for grp in paths.values():
            c = grp[0]['c']
            calls = []
            made, y0 = self.make(c, calls)
            if made.err:
                self.say('replay-refused', config=c, msg=made.msg)
                continue
            e = made.value
            at = {json.dumps(t['s'], sort_keys=True): t for t in grp}
            steps = {json.dumps(t['s'], sort_keys=True): t for t in grp if t['act']['op'] == 'step'}
            looks = {}
            for t in grp:
                if t['act']['op'] == 'dense':
                    looks.setdefault(json.dumps(t['s'], sort_keys=True), []).append(t)
            s = dict(t=c['t0'], y=c['y0'], st='running', has=False, tp=0, yp=0)
            held, idle = [], 0
            while idle < 2:
                key = json.dumps(s, sort_keys=True)
                if key not in at:
                    break
                for t in looks.get(key, []):
                    self.n += 1
                    r = Called(lambda: e.dense_output())
                    v = Called(lambda: float(r.value(t['act']['at'] / 8)[0])) if not r.err else r
                    if v.err or abs(v.value * 8 * (s['t'] - s['tp']) - t['act']['num']) > 1e-9 * (1 + abs(t['act']['num'])):
                        self.say('replay-dense', config=c, state=s, at=t['act'], got=v.msg or v.value)
                    if not r.err:
                        held.append((r.value, t, s))
                calls.clear()
                r = Called(e.step)
                self.n += 1
                t = steps[key]
                s2 = t['s2']
                got = dict(t=e.t * 8, y=float(e.y[0]) * 8, st=e.status, tp=e.tprev * 8 if e.tprev is not None else None,
                           yp=float(e.yprev[0]) * 8 if e.yprev is not None else None)
                if r.err or got['t'] != s2['t'] or got['y'] != s2['y'] or got['st'] != s2['st'] or \
                        (s2['has'] and (got['tp'] != s2['tp'] or got['yp'] != s2['yp'])) or len(calls) != t['act']['calls'] or \
                        (calls and calls[0] * 8 != t['act']['at']):
                    self.say('replay-step', config=c, state=s, want=s2, got=got, calls=list(calls), msg=r.msg)
                    break
                idle += s['st'] == 'finished'
                s = s2
                self.sample = self.sample or t
            for fun, t, s1 in held:
                v = Called(lambda: float(fun(t['act']['at'] / 8)[0]))
                if v.err or abs(v.value * 8 * (s1['t'] - s1['tp']) - t['act']['num']) > 1e-9 * (1 + abs(t['act']['num'])):
                    self.say('replay-held', config=c, state=s1, at=t['act'], got=v.msg or v.value)
            if float(y0[0]) * 8 != c['y0']:
                self.say('replay-start', config=c)
        # intervals and steps that must be refused
        for t0, tend, step in [(0, 0, 1), (1, 0, 1), (0, 4, 0), (0, 4, -1), (-1, -1, 2), (2, 1, -1)]:
            made, _ = self.make(dict(t0=t0, tend=tend, step=step, tol=0, rate=[1, 0, 0], y0=0), [])
            self.n += 1
            if not made.err:
                self.say('replay-accepts', t0=t0, tend=tend, step=step)


class Verify(Base):
    LIM = dict(altitude=(1000.0, 45000.0), Nz=(-5.0, 9.0), v=(300.0, 2500.0), alpha=(math.radians(-10), math.radians(45)), ps=300.0, beta=25.0)
    KW = dict(ps='psMaxAccelDeg', beta='betaMaxDeg')

    def value(self, q, where):
        rng = self.rng
        if q in ('ps', 'beta'):
            m = self.LIM[q]
            return math.radians(dict(hi=m - 1e-9, above=m + rng.choice([1e-6, 0.5, 100])).get(where, m - rng.choice([0.1, 5, 2 * m])))
        lo, hi = self.LIM[q]
        d = rng.choice([1e-6, 0.01, 1.0]) * (hi - lo)
        return dict(lo=lo, hi=hi, below=lo - d, above=hi + d).get(where, rng.uniform(lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo)))

    def instant(self, act, width):
        x = [self.rng.uniform(-9, 9) for _ in range(width)]
        x[0], x[1], x[2], x[11] = (self.value(q, act[q]) for q in ('v', 'alpha', 'beta', 'altitude'))
        return x, self.value('Nz', act['Nz']), self.value('ps', act['ps'])

    def run(self, ts):
        from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
        llc = LowLevelController()
        first = {}
        for t in ts:
            key = (json.dumps(t['lim'], sort_keys=True), t['run'] + 1, t['safe2'])
            first.setdefault(key, []).append(t)
        for t in ts:
            lk = json.dumps(t['lim'], sort_keys=True)
            # a history that leads to the source state
            path, key = [t], (lk, t['run'], t['safe'])
            while key[1] > 0:
                q = self.rng.choice(first[key])
                path.append(q)
                key = (lk, q['run'], q['safe'])
            path.reverse()
            width = self.rng.choice([13, 16])
            rows = [self.instant(q['act'], width) for q in path]
            kw = {self.KW.get(k, k): v for k, v in self.LIM.items() if t['lim'][k]}
            res = dict(states=np.array([r[0] for r in rows]), Nz_list=[r[1] for r in rows], ps_list=[r[2] for r in rows])
            ver = self.u.SafetyLimitsVerifier(self.u.SafetyLimits(**kw), llc if width == 16 else None)
            c = Called(lambda: ver.verify(res))
            self.n += 1
            if (c.err == '') != t['safe2'] or c.err not in ('', 'AssertionError'):
                self.say('replay-verdict', transition=t, msg=c.msg, rows=rows)
            self.sample = self.sample or t


class Freeze(Base):

    def run(self, ts):
        u = self.u

        class One(u.Freezable):
            pass

        class Two(u.Freezable):

            def __init__(self):
                self.base = 1

        def build(f, frozen):
            o = self.rng.choice([One, Two])()
            for n, v in f.items():
                if v:
                    setattr(o, n, v)
            if frozen:
                o.freeze_attrs()
            return o

        def read(o, names):
            return {n: getattr(o, n, 0) for n in names}

        for t in ts:
            a = t['act']
            os = [build(f, z) for f, z in zip(t['f'], t['frozen'])]
            names = list(t['f'][0])
            o = os[a['o'] - 1]
            c = Called(o.freeze_attrs) if a['op'] == 'freeze' else Called(lambda: setattr(o, a['n'], a['v']))
            self.n += 1
            got = [read(x, names) for x in os]
            if (c.err == '') != a['ok'] or got != t['f2']:
                self.say('replay-object', transition=t, got=got, msg=c.msg)
            for x, fr in zip(os, t['frozen2']):  # a name no object has
                if (Called(lambda: setattr(x, 'unheard_of', 1)).err != '') != fr:
                    self.say('replay-frozen', transition=t)
            self.sample = self.sample or t


class Engine(Base):

    def run(self, ts):
        from safe_autonomy_dynamics.external.aerobench.lowlevel.pdot import pdot
        from safe_autonomy_dynamics.external.aerobench.lowlevel.tgear import tgear
        for t in ts:
            p, a = num(t['p']), {k: num(v) for k, v in t['act'].items()}
            c = Called(lambda: (tgear(a['th']), pdot(p, tgear(a['th']))))
            self.n += 1
            if c.err or abs(c.value[0] - a['cmd']) > 1e-9 or abs(c.value[1] - a['pd']) > 1e-7:
                if min(abs(p - 50), abs(a['cmd'] - 50)) < 1e-9:
                    continue  # rounding decides on which side of 50 the power stands
                self.say('replay-engine', p=p, want=a, got=c.msg or list(map(float, c.value)))
            self.sample = self.sample or dict(p=p, **a)


def replay(prop, seed, log, res):
    b = dict(C28=Ivp, C29=Verify, C30=Freeze, C23=Engine)[prop](prop, seed)
    with open(log, encoding='utf8') as f:
        b.run([json.loads(x) for x in f])
    with open(res, 'w', encoding='utf8') as f:
        json.dump(dict(replayed=b.n, bad=b.bad, sample=b.sample), f)
