import os
import sys
import importlib

MODULES = {"C26": "rules_effects", "C17": "rules_alias", "C21": "rules_verbose", "C22": "rules_pool", "C24": "rules_exact", "C15": "rules_step", "C14": "rules_step", "C12": "rules_well", "C13": "rules_cond", "C25": "rules_comp", "C10": "rules_eqs", "C11": "rules_eqs", "C18": "rules_dispatch", "C19": "rules_dispatch", "C23": "rules_dispatch", "C16": "rules_memo", "C09": "rules_units", "C08": "rules_scale", "C01": "rules_trans", "C02": "rules_trans", "C03": "rules_grid", "C04": "rules_grid", "C05": "rules_grid", "C06": "rules_grid", "C07": "rules_grid"}


def work(pid, shard, nshards):
    """one worker's share of the obligations of a property"""
    from .check import Check
    import gc
    import threading
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    ck = Check(pid, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    ck.shard = (shard, nshards)
    mod = importlib.import_module("sa." + MODULES[pid])

    def go():
        try:
            getattr(mod, pid.lower())(ck)
        except Exception as e:  # the analysis gave up: what was decided so far stands
            import traceback
            ck.undecided("analysis completed", "sa/" + MODULES[pid] + ".py", f"{type(e).__name__}: {e} " + traceback.format_exc()[-800:])
    gc.disable()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return ck


def run(pid):
    import pickle
    import tempfile
    n = int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 1)
    mod = importlib.import_module("sa." + MODULES[pid])
    if pid not in getattr(mod, "PARALLEL", ()):
        n = 1
    if n == 1:
        return work(pid, 0, 1).finish()
    kids = []
    for i in range(n):
        f = tempfile.TemporaryFile()
        p = os.fork()
        if p == 0:
            try:
                ck = work(pid, i, n)
                pickle.dump(ck.export(), f)
                f.flush()
            finally:
                os._exit(0)
        kids.append((p, f))
    from .check import Check
    ck = Check(pid, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    for i, (p, f) in enumerate(kids):
        os.waitpid(p, 0)
        try:
            f.seek(0)
            ck.absorb(pickle.load(f))
        except Exception as e:
            ck.undecided("analysis completed", "sa/" + MODULES[pid] + ".py", f"worker {i} gave no result: {type(e).__name__}")
    return ck.finish()


if __name__ == "__main__":
    r = 0
    for p in sys.argv[1:]:
        r = max(r, run(p))
    sys.stdout.flush()
    os._exit(r)
