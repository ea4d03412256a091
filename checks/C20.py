import tria


def other_sign(kind, at):
    def f(x):
        for e in x["ev"]:
            if e["e"] == kind:
                e["t"][7][at] = 1 if e["t"][7][at] <= 0 else -1
                return True
        return False
    return f


def boundary(x):
    """a point on the sphere reported as strictly inside"""
    for e in x["ev"]:
        if e["e"] == "sphere":
            for t in e["t"]:
                if t[3] and not t[4]:
                    t[4] = True
                    return True
    return False


def run(c):
    tria.java()
    c.model("ExactGeomTest")
    c.model("FloatGeomTest")
    exe = tria.build(c, "pred", "pred.cpp", dc=False)
    t = c.drive(exe, ["--n", c.q(7200, 60000)], "plain", timeout=800)
    c.validate("PredTrace", t)
    # as the repository's own build does, for the instruction set of this machine (fused multiply-add)
    opt = tria.build(c, "pred_native", "pred.cpp", dc=False, opt="-O2", flags=("-march=native",))
    u = c.drive(opt, ["--n", c.q(4000, 30000), "--seed", c.seed + 50], "native", timeout=800)
    c.validate("PredTrace", u)
    for f in (other_sign("orient", 1), other_sign("orient", 2), other_sign("sphere", 2), boundary):
        c.control("PredTrace", t, f)
    c.assumptions += ["coordinates for which no intermediate product over- or underflows"]
