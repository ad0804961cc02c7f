"""Time each scenario of a check: prof.py C09 [tier]."""
import importlib, os, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.path[:0] = ["/verif", os.environ.get("MC_REPO", "/repo")]
sys.dont_write_bytecode = True
from mc import core, vloop
vloop.mute_logging(); vloop.patch_names()
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
check = importlib.import_module(f"props.{sys.argv[1].lower()}").build(tier)
def one(i):
    s = check.scenarios[i]; t = time.time(); st = core.Stats()
    core.explore(s, st, None, time.time() + 600)
    return time.time() - t, s.name, st.executions
if __name__ == "__main__":
    import multiprocessing as mp
    with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as pool:
        res = sorted(pool.map(one, range(len(check.scenarios))), reverse=True)
    print("total cpu", round(sum(x[0] for x in res), 1))
    for t, name, ex in res[:25]:
        print(f"{t:8.1f} {ex:8d} {name}")
