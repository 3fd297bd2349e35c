#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--runs=N] | check.py --replay FILE"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" and not os.environ.get("XSIM_HASHSEED"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY, "-X", "faulthandler", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

TABLE = {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim", "props", "TABLE")) as f:
    for line in f:
        if line.strip():
            a, b = line.split()
            TABLE[a] = b


def _main():
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    keep = {k: os.environ[k] for k in os.environ if k.startswith("XSIM_")}
    args = sys.argv[1:]
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    from sim import osl, runner

    if args[0] == "--replay":
        runner.boot(14)
        code = runner.replay(args[1])
        runner.images.cleanup()
        return code
    return runner.main(args[0], TABLE[args[0]], tier, seed, args[1:])


if __name__ == "__main__":
    try:
        code = _main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 2
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    from sim import osl

    osl.real.exit(code)
