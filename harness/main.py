"""main.py <driver> <prop> <seed> <n or file> <out>: run one driver; exit 3 if the code under test raised out of it."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    drv, prop, seed, arg, out = sys.argv[1:6]
    try:
        m = importlib.import_module(drv)
        if os.path.exists(arg):
            m.replay(prop, seed, arg, out)
        else:
            m.run(prop, seed, int(arg), out)
    except Exception as e:  # pylint: disable=broad-except
        traceback.print_exc()
        repo = os.path.realpath(os.environ.get('VP_REPO', '/repo')) + os.sep
        frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
        mine = max([i for i, f in enumerate(frames) if f.startswith(HERE)], default=-1)
        theirs = max([i for i, f in enumerate(frames) if f.startswith(repo)], default=-1)
        sys.exit(3 if theirs > mine else 4)
    sys.exit(0)


main()
