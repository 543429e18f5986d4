import json, os, sys
from . import build, core


def load(pid):
    from . import props
    return props.get(pid)


def run():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        rec = json.load(open(a[1]))
        return core.replay(load(rec["property"]), a[1])
    if not a:
        print("usage: check C01 [...] | --replay FILE", file=sys.stderr)
        return 2
    seed, tier = int(os.environ.get("VERIF_SEED", "1") or 1), os.environ.get("VERIF_TIER", "quick") or "quick"
    rc = 0
    for pid in a:
        rc = max(rc, core.main(load(pid), seed, tier))
    return rc


try:
    sys.exit(run())
except build.BuildError as e:
    print("ERROR of the check: the build failed\n" + str(e), file=sys.stderr)
    sys.exit(4)
