"""Run in a fresh interpreter: load pickled maps (or build specs) and describe them.

stdin: JSON {"items": [{"pickle": base64} | {"spec": spec}, ...], "seeds": [...]}; stdout: JSON answers.
"""
import base64
import json
import os
import pickle
import random
import subprocess
import sys

from . import load


def ask(items, hashseed="0", timeout=300):
    """Describe items in a new interpreter with the given hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=load.HERE, PYTHONDONTWRITEBYTECODE="1",
               VERIF_REPO=load.REPO)
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "mon.child"], input=json.dumps(items).encode(), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=load.HERE)
    if r.returncode:
        raise ChildError(r.stderr.decode()[-3000:])
    return json.loads(r.stdout)


class ChildError(Exception):
    """The other interpreter could not answer."""


def main():
    load.load()
    from . import gen, golden
    out = []
    for it in json.load(sys.stdin):
        if "pickle" in it:
            m = pickle.loads(base64.b64decode(it["pickle"]))
        else:
            m = gen.build(it["spec"])
        d = golden.describe(m, it["spec"], random.Random(it["seed"]))
        d["repickle"] = base64.b64encode(pickle.dumps(m)).decode()
        out.append(d)
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
