"""probe.py <in> <out>: the transition function of an entity's dynamics, evaluated in a process that did nothing else before.

Each request is (configuration, step size, state, command); the requests are answered in an order unrelated to the order in which
the recorded history made them, each by a freshly constructed entity.
"""
import os
import pickle
import random
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import syn  # noqa: E402,F401
from lib import np  # noqa: E402


def answer(req):
    cfg, h, x, u = req
    try:
        ent = cfg.make()
        y, d = ent.dynamics.step(h, x, u)
        return ('', np.array(y, dtype=float), np.array(d, dtype=float))
    except Exception as e:  # pylint: disable=broad-except
        return (repr(e)[:300], None, None)


def main():
    with open(sys.argv[1], 'rb') as f:
        reqs = pickle.load(f)
    order = list(range(len(reqs)))
    random.Random(len(reqs)).shuffle(order)
    out = [None] * len(reqs)
    warnings.simplefilter('ignore')
    for i in order:
        out[i] = answer(reqs[i])
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main()
