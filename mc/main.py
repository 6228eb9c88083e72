import importlib
import json
import logging
import os
import sys
import warnings


def load(pid):
    return importlib.import_module(f"mc.props.{pid.lower()}")


def main():
    warnings.simplefilter("ignore")
    from . import core
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        from . import env
        print(f"sd_mecha from {env.sd_mecha.__file__}, torch {env.torch.__version__}, python {sys.version.split()[0]}")
        return 0
    replaying = args[:1] == ["--replay"]
    try:
        if replaying:
            doc = json.load(open(args[1]))
            pid = doc["property"]
        else:
            pid = args[0]
        from . import env  # imports torch and sd_mecha from /repo
        env.quiet()
        module = load(pid)
        if replaying:
            bad = module.PARTS[doc["case"]["part"]]
            shard = core.Shard()
            core.run_one(lambda c, s: bad(c["case"], s), doc["case"], shard, 0)
            for sig, msg, _ in shard.violations:
                print(f"{sig}: {msg}")
            print("REPRODUCED" if shard.violations else "not reproduced")
            return 1 if shard.violations else 0
        ck = core.Check(pid, getattr(module, "LEVEL", "model_checking"))
        module.run(ck)
        return ck.finish()
    finally:
        if "mc.core" in sys.modules:
            core.cleanup_scratch()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
