import mcgen
def check(c):
    def h(r):
        return mcgen.multi(r) if r.random() < 0.4 else mcgen.history(r, bad=0.01)
    mcgen.standard(c, "TraceMC_C04", h, 500)
