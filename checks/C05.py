import mcgen
def check(c):
    mcgen.standard(c, "TraceMC_C05", lambda r: mcgen.history(r, fail=0.05), 500)
