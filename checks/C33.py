"""C++ gf, gf_view, block_gf, block_gf_view (GfContainer.tla)."""
def check(c):
    c.model("MCGfContainerX", c.pick("MCGfContainerX", "MCGfContainerXt"))
    exe = c.build("gfcont", ["gfcont.cpp"], flags=["-DFMT_HEADER_ONLY"])
    hs = []
    for cfg, n in (("MCGfContainer_gf", c.pick(150, 1500)), ("MCGfContainer_blk", c.pick(90, 900))):
        for b in c.behaviours("MCGfContainer", cfg, n, 30, timeout=c.pick(300, 3000)):
            if b: hs.append({"K": b[0]["K"], "ops": b})
    c.validate("TraceGfContainer", "TraceGfContainer", c.run_driver([exe], hs, "gf"), "programs on Green's function containers")
    c.finish()
