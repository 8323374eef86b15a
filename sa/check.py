"""python3 -m sa.check P01 [--tier quick|thorough]"""
import importlib
import os
import sys


def run(pid, argv):
    from . import base

    mod = importlib.import_module(f".checks.{pid.lower()}", "sa")
    return base.main(pid, mod.run, mod.EXPLANATION, argv)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "sa.check"] + sys.argv[1:])
    if sys.argv[1] == "--selftest":
        from .prog import Program

        prog = Program()
        print(f"python {sys.version.split()[0]}; {len(prog.modules)} modules parsed")
        sys.exit(0)
    sys.exit(run(sys.argv[1], sys.argv[2:]))
