import os, sys
from . import boot


def main():
    a = sys.argv[1:]
    cmd = a[0] if a else ""
    boot.pin(keep=("PYTHONHASHSEED",) if cmd == "selftest" else ())
    os.chdir(boot.VERIF)
    import faulthandler
    faulthandler.enable()
    boot.load()
    from . import runner, seams, monitor
    seams.install()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if cmd == "check":
        if len(a) > 2 and a[2] in ("quick", "thorough"):
            tier = a[2]
        rc = runner.search(a[1], tier, seed)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    if cmd == "replay":
        rc = runner.replay(a[1])
        sys.stdout.flush()
        os._exit(rc)
    if cmd == "selftest":
        runner.selftest(a[2:] or ["C02"], int(a[1]), seed)
        sys.stdout.flush()
        os._exit(0)
    sys.exit("usage: python -m sim check ID [quick|thorough] | replay FILE | selftest N ID...")


if __name__ == "__main__":
    main()
