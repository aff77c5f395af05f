import atomgen as g

def from_model(r, ops, N):
    """constructions chosen by the specification, with questions about each"""
    out = []
    for o in ops:
        out.append(o)
        for _ in range(3):
            x = r.random()
            if x < 0.4: out.append({"op": "mono", "m": g.g.canonical(r, N, r.randrange(0, 4)), "B": r.randrange(8)})
            elif x < 0.7: out.append({"op": "opmat", "t": g.g.termlist(r, N, True, r.randrange(1, 3))})
            elif x < 0.85: out.append({"op": "qn", "t": [[[k, -k], 1, 0] for k in range(1, N + 1)], "checked": r.random() < 0.5})
            else: out.append({"op": "h5", "over": r.random() < 0.5, "h": [[[1, -1], 1, 0]]})
    return {"cplx": True, "names": [["a", k] for k in range(N)], "order": list(range(1, N + 1)), "ops": out}

def check(c):
    exe = c.build("atomd", g.SRCS, flags=["-DFMT_HEADER_ONLY"])
    c.model("MCAtomDiag", c.pick("MCAtomDiag", "MCAtomDiag_big"), timeout=c.pick(300, 3000))
    r = c.rng
    hs = [from_model(r, b, 2) for b in c.behaviours("MCAtomDiag", "MCAtomDiag_sim", c.pick(15, 100), 4)]
    hs += [g.history(r) for i in range(c.pick(150, 2500))]
    c.validate("TraceAtomDiag", "TraceAtomDiag", c.run_driver([exe], hs, "atoms"), "atomic problems")
    c.assumptions += ["coefficients are Gaussian integers and spectra for thermal averages are integers with beta a multiple of ln 2, so that every value is known; up to 4 orbitals (5 in few cases)",
                      "with a filter on the number of particles the Hamiltonian conserves it; given quantum numbers are conserved (both are documented preconditions)",
                      "linear algebra, arrays and HDF5 are stand-ins (/verif/shim)"]
