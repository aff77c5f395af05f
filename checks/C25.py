"""Gf: arithmetic, views and slices (GfHeap.tla)."""
import sys
import vlib
DRV = [sys.executable, vlib.VERIF + "/drivers/gflayer.py"]
def conform(c, cfg, num, depth, name, extra=()):
    hs = [h for h in c.behaviours("MCGfHeap", cfg, num, depth) if h] + list(extra)
    files = c.run_driver(DRV, hs, name, env={"VERIF_REPO": vlib.REPO})
    c.validate("TraceGfHeap", "TraceGfHeap", files, name)
def check(c):
    c.model("MCGfHeapX", c.pick("MCGfHeapX_0", "MCGfHeapX_0t"))
    c.model("MCGfHeapX", c.pick("MCGfHeapX_22", "MCGfHeapX_22t"))
    conform(c, "MCGfHeap_sim", c.pick(240, 2400), 30, "gf")
    c.finish()
