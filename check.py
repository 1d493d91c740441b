#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay <file>"""
import os
import sys

PY = "/opt/venv/bin/python"


def hashseed():
    if os.environ.get("SIM_HASHSEED"):  # tools/determinism.sh
        return os.environ["SIM_HASHSEED"]
    for i, a in enumerate(sys.argv):
        if a == "--replay":
            import json
            with open(sys.argv[i + 1]) as f:
                return json.load(f).get("hashseed") or "1"
        if a == "--seed":
            return str(int(sys.argv[i + 1]) % 4294967296)
    return str(int(os.environ.get("VERIF_SEED") or 1) % 4294967296)


if __name__ == "__main__":
    want = hashseed()
    if os.environ.get("PYTHONHASHSEED") != want or (os.path.exists(PY) and sys.prefix != "/opt/venv"):
        os.environ["PYTHONHASHSEED"] = want
        for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
            os.environ[v] = "1"
        py = PY if os.path.exists(PY) else sys.executable
        os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim import runner
    status = runner.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)  # some libraries write noise in their exit handlers
