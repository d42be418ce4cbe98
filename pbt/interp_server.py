"""Interpreted twin of the kernels: runs with NUMBA_DISABLE_JIT=1, one JSON request per line."""
import json
import os
import sys

sys.dont_write_bytecode = True
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
sys.path.insert(0, sys.argv[1])
import numpy as np                                                        # noqa: E402
from pySailingVLM.solver import coefs, velocity                           # noqa: E402

HOMES = {"calc_velocity_coefs": coefs}
for line in sys.stdin:
    request = json.loads(line)
    args = [np.ascontiguousarray(np.array(a["v"], dtype=a["d"])) if isinstance(a, dict) else a
            for a in request["args"]]
    try:
        result = getattr(HOMES.get(request["fn"], velocity), request["fn"])(*args)
        parts = result if isinstance(result, tuple) else (result,)
        answer = {"ok": [np.asarray(p).tolist() for p in parts]}
    except Exception as e:                                                # noqa: BLE001
        answer = {"error": "%s: %s" % (type(e).__name__, e)}
    out.write(json.dumps(answer) + "\n")
    out.flush()
