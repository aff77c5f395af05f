import mcgen
def check(c):
    mcgen.standard(c, "TraceMC_C01", lambda r: mcgen.history(r, sig=0.2, bad=0.01), 500)
