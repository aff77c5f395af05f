import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
#!/usr/bin/env python3
"""python3 tools/run.py Cxx [quick|thorough]"""
import importlib.util, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    p = os.path.join(vlib.VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    vlib.main(pid, m.check)
