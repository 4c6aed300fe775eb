"""Replay of the transitions that TLC explored in spec/EntityMC.tla: every transition from its own source state, and random walks
through the explored graph on entities that live through the whole walk, several of them interleaved."""
import json
import math

from lib import *  # noqa: F401,F403
from lib import Called, Rng, np
from syn import SynConfig

TURN, INF, NOWRAP = 8, 1000000, 999999
U = math.pi / 4
LIMITS = {
    1: dict(smin=[-4, -2, -INF], smax=[4, 2, INF], dmin=[-INF] * 3, dmax=[INF] * 3, wrap=0, umin=[-1, -2], umax=[2, 2], udef=[0, 0]),
    2: dict(smin=[-4, -INF, -INF], smax=[INF, 2, INF], dmin=[-INF, -INF, -1], dmax=[2, 1, INF], wrap=3, umin=[-2, -3], umax=[1, 3], udef=[1, -1]),
    3: dict(smin=[-INF, 1, -3], smax=[INF, INF, 3], dmin=[-1, -1, -3], dmax=[3, 2, 3], wrap=None, umin=[-1, -1], umax=[1, 2], udef=[-1, 1]),
    4: dict(smin=[-2, -2, -2], smax=[2, 2, 2], dmin=[-INF] * 3, dmax=[INF] * 3, wrap=1, umin=[-INF, -1], umax=[1, INF], udef=[0, 1]),
}


def inf(v):
    return math.copysign(math.inf, v) if abs(v) == INF else float(v)


class Machine:
    """one entity of the implementation, standing for one entity of the model"""

    def __init__(self, k, jax=False):
        c = LIMITS[k]
        self.k, self.c = k, c
        self.unit = u = U if c['wrap'] is not None else 1.0
        third = lambda v: v[:2] + [v[2] * u if math.isfinite(v[2]) else v[2]]  # noqa: E731
        p = {a: third([inf(x) for x in c[a]]) for a in ('smin', 'smax', 'dmin', 'dmax')}
        p.update({a: [inf(x) for x in c[a]] for a in ('umin', 'umax', 'udef')})
        p.update(A=[[0.0, 1.0, 0.0], [0.0] * 3, [0.0] * 3], B=[[0.0, 0.0], [1.0, 0.0], [0.0, u]], E=[[0.0, 0.0]] * 3, S=[[0.0] * 3] * 3,
                 c=[0.0] * 3, names=['acc', 'turn'], flip=False, scalar=[], wrapgiven=False,
                 wrap=[math.nan, math.nan, math.nan if c['wrap'] is None else c['wrap'] * u])
        self.ent = SynConfig('gen', p, 'Euler', jax=jax).make(init=self.real([0, 1, 0]))
        self.given = self.assigned = None

    def real(self, x):
        return [float(x[0]), float(x[1]), x[2] * self.unit]

    def put(self, x):
        self.assigned = np.array(self.real(x))
        self.ent.state = self.assigned

    def do(self, act, rng):
        """perform one event; (err, warned)"""
        op, f = act['op'], act['form']
        if op == 'assign':
            self.put(f['vals'])
            return '', False
        if op == 'scribble_state':
            s = self.ent.state
            if isinstance(s, np.ndarray) and s.flags.writeable:
                s[:] = 77.0
            return '', False
        if op == 'scribble_action':
            if self.given is not None:
                self.given[:] = -55.0
            return '', False
        if op == 'scribble_assigned':
            if self.assigned is not None:
                self.assigned[:] = 33.0
            return '', False
        if op == 'compare':
            bool(self.ent == Machine(self.k).ent)
            return '', False
        v = f['vals']
        if f['kind'] == 'none':
            a = None
        elif f['kind'] == 'dict':
            a = {n: float(x) for n, x in zip(f['names'], v)}
        elif f['kind'] == 'list':
            a = [float(x) for x in v] if rng.random() < 0.5 else [int(x) for x in v]
        elif f['kind'] == 'arr':
            a = self.given = np.array(v, dtype=float)
        else:
            a = rng.choice(['thrust', 3.5, (1.0, 2.0), object()])
        h = act['h'] if rng.random() < 0.5 else float(act['h'])
        c = Called(lambda: self.ent.step(h, a) if a is not None or rng.random() < 0.5 else self.ent.step(h))
        return (c.err or ''), c.warn

    def now(self):
        s = self.ent.state
        d = self.ent.state_dot
        return np.array(s, dtype=float), np.array(d, dtype=float)


def same(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


class Judge:

    def __init__(self, prop):
        self.prop, self.bad, self.n = prop, [], 0

    def say(self, clause, **kw):
        if clause.startswith(self.prop + '.') and len(self.bad) < 40:
            self.bad.append(dict(clause=clause, **kw))

    def step(self, m, t, err, warn, got, dot, where):
        """compare what happened with the transition t of the model"""
        self.n += 1
        act, u = t['act'], m.unit
        x, y, d = t['x'], t['y'], t['d']
        info = dict(where=where, config=m.k, transition=t, err=err, warn=warn, state=list(map(float, got)), state_dot=list(map(float, dot)))
        if act['op'] != 'step':
            want = m.real(y)
            if not all(same(a, b) for a, b in zip(got, want)):
                self.say('C07.replay', **info)
                self.say('C08.replay', **info)
            return
        f = act['form']
        if (err != '') != (act['err'] != ''):
            self.say('C03.replay-error', **info)
            if f['kind'] in ('dict', 'none', 'list', 'arr'):
                self.say('C02.replay-error', **info)
            return
        if err:
            if act['err'] in ('KeyError', 'ValueError') and err != act['err']:
                self.say('C03.replay-class', **info)
            if not all(same(a, b) for a, b in zip(got, m.real(x))):
                self.say('C03.replay-state', **info)
            return
        if warn != act['warn']:
            self.say('C01.replay-warning', **info)
        want, c = m.real(y), m.c
        wrong = [i for i in range(3) if not same(got[i], want[i])]
        if 2 in wrong and c['wrap'] is not None and same(abs(got[2] - want[2]), 2 * math.pi) and \
                abs(got[2] - c['wrap'] * u) <= math.pi + 1e-9:
            wrong.remove(2)  # either end of the range stands for the same angle
        if wrong:
            v = f['vals']
            if f['kind'] in ('arr', 'list') and act['warn']:
                self.say('C01.replay-state', **info)
            if f['kind'] in ('dict', 'none', 'list'):
                self.say('C02.replay-state', **info)
            for i in wrong:
                if i == 2 and c['wrap'] is not None:
                    self.say('C05.replay-wrap', **info)
                elif want[i] in (inf(c['smin'][i]), inf(c['smax'][i])) or (i == 2 and abs(y[2]) in (abs(c['smin'][2]), abs(c['smax'][2]))):
                    self.say('C04.replay-limit', **info)
                else:
                    self.say('C10.replay-update', **info)
                    self.say('C08.replay', **info)
        wd = [float(d[0]), float(d[1]), d[2] * u]
        for i in range(3):
            if same(dot[i], wd[i]):
                continue
            if i == 2 and c['wrap'] is not None and y[2] in (c['smin'][2], c['smax'][2]):
                continue  # rounding of multiples of pi/4 decides whether the limit is reached
            self.say('C06.replay-derivative', **info)


def replay(prop, seed, log, res):
    rng = Rng(f'{seed}.{prop}.mbt')
    graphs = {}
    with open(log, encoding='utf8') as f:
        for ln in f:
            t = json.loads(ln)
            e = t['act']['e']
            k = t['cfg'][e - 1]
            r = dict(act=t['act'], x=t['st'][e - 1], y=t['st2'][e - 1], d=t['sd2'][e - 1])
            graphs.setdefault(k, {}).setdefault(tuple(r['x']), []).append(r)
    j = Judge(prop)
    sample = None
    # every transition on its own
    for k, g in graphs.items():
        m = Machine(k)
        for x, ts in g.items():
            for t in ts:
                if t['act']['op'] == 'assign' and prop not in ('C07', 'C08'):
                    continue
                m.put(x)
                err, warn = m.do(t['act'], rng)
                got, dot = m.now()
                j.step(m, t, err, warn, got, dot, 'transition')
                sample = sample or (t if t['act']['op'] == 'step' and t['act']['warn'] else None)
    # walks
    walks = 40 if len(j.bad) == 0 else 0
    for w in range(walks):
        ms = [Machine(rng.choice(list(graphs))) for _ in range(rng.randint(1, 3))]
        at = [(0, 1, 0)] * len(ms)
        for s in range(60):
            i = rng.randrange(len(ms))
            m, g = ms[i], graphs[ms[i].k]
            if at[i] not in g:
                at[i] = (0, 1, 0)
                m.put(at[i])
            t = rng.choice(g[at[i]])
            if rng.random() < 0.5 and t['act']['err']:
                t = rng.choice(g[at[i]])
            rest = [(n, q.now()) for n, q in enumerate(ms) if n != i]
            err, warn = m.do(t['act'], rng)
            got, dot = m.now()
            j.step(m, t, err, warn, got, dot, f'walk {w} step {s}')
            at[i] = tuple(t['y'])
            if j.bad:
                break
            if any(not np.array_equal(a, b) for n, old in rest for a, b in zip(old, ms[n].now())):
                j.say('C08.replay-isolated', where=f'walk {w} step {s}', transition=t)
            if m.c['wrap'] is not None and not same(got[2], m.real(t['y'])[2]):
                m.put(at[i])  # continue from the model's end of the range
    with open(res, 'w', encoding='utf8') as f:
        json.dump(dict(replayed=j.n, bad=j.bad, sample=sample), f)
