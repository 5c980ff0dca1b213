"""python3 -m pbt.run <ID> [quick|thorough]      run a check (seed from VERIF_SEED)
   python3 -m pbt.run <ID> replay <file>         evaluate one stored case
   python3 -m pbt.run <ID> gen <index>           print a generated case"""
import json
import os
import sys

from . import build, core
from .props import load


def main():
    pid = sys.argv[1]
    prop = load(pid)
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if mode == "replay":
        stored = json.load(open(sys.argv[3]))
        env = core.Env({f: build.build(f) for f in prop.flavours}, stored.get("reuse", False), stored.get("far", False))
        r = core.evaluate(prop, stored["case"], env)
        env.close()
        print(r.fail or ("outside of the domain" if r.skip else "holds"))
        return 1 if r.fail else 0
    if mode == "gen":
        i = int(sys.argv[3])
        case = prop.gen(core.case_rng(seed, prop.id, i), "quick", i)
        t = prop.text(case) if case is not None else None
        print("\n".join(t) if isinstance(t, list) and all(isinstance(x, str) for x in t) else json.dumps(t, indent=1))
        return 0
    scale = float(os.environ.get("MDB_SCALE", "1"))
    return core.run_check(prop, mode, seed, scale)


if __name__ == "__main__":
    sys.exit(main())
