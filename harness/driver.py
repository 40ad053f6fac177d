"""driver.py PROP MODULE TIER SEED W NPROC SHARDS_PER_PROC OUTDIR"""
import faulthandler
import importlib
import resource
import sys

import hl


def main():
    prop, module, tier, seed, w, W, per, out = sys.argv[1:9]
    resource.setrlimit(resource.RLIMIT_DATA, (3600 << 20, 3600 << 20))  # a runaway call raises MemoryError
    mod = importlib.import_module(module)
    hl.JOB_LIMIT = 420 if tier == "quick" else 6000
    faulthandler.dump_traceback_later(hl.JOB_LIMIT, exit=True)
    jobs = mod.jobs(prop, tier, int(seed), out)
    faulthandler.cancel_dump_traceback_later()
    hl.run(jobs, int(w), int(W), int(per), out)


if __name__ == "__main__":
    main()
