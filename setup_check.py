"""setup: the machinery is built by every check for itself (one javac call); here it is only tried out once, by the self-test of the
number library, in which the Java overrides are compared with the TLA+ definitions."""
import os
import shutil
import sys

import check

ctx = check.Ctx('setup', 'quick', 1)
try:
    check.build(ctx)
    r, gen, dist = check.tlc(ctx, 'SelfTest', os.path.join(check.SPEC, 'SelfTest.cfg'), 'selftest')
    print(r.stdout[-400:])
    sys.exit(0 if r.returncode == 0 else 1)
finally:
    shutil.rmtree(ctx.scratch, ignore_errors=True)
