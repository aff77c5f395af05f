"""Block Green's function containers (GfHeap.tla)."""
import vlib
from C25 import conform
def check(c):
    c.model("MCGfHeapX", c.pick("MCGfHeapX_0", "MCGfHeapX_0t"))
    conform(c, "MCGfHeap_blk", c.pick(200, 2400), 40, "blk")
    c.finish()
