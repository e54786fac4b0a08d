import logging; logging.disable(logging.CRITICAL)
import sys, os
from . import runner
if sys.argv[1:] == ["--selftest"]:
    from . import term as T, solver
    r = solver.solve([T.lt(T.var("x", "R"), T.ZERO), T.lt(T.ZERO, T.var("x", "R"))], 2000)
    assert r.status == "unsat", r.status
    import yapcad; print("pyvc ready:", yapcad.__file__); sys.exit(0)
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(runner.main(prop, tier))
