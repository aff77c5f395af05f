import mcgen
def check(c):
    mcgen.standard(c, "TraceMC_C02", lambda r: mcgen.history(r, sig=0.6), 500)
