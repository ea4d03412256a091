import tria


def accept_damaged(x):
    """a damaged mesh reported as valid"""
    for e in x["ev"]:
        if e["e"] == "verify" and not e["valid"] and e["what"] in ("link removed", "link to nothing", "hull entry removed"):
            e["valid"] = True
            return True
    return False


def reject_intact(x):
    for e in x["ev"]:
        if e["e"] == "verify" and e["valid"] and e["what"] == "intact":
            e["valid"] = False
            return True
    return False


def forget(kind):
    def f(x):
        for e in x["ev"]:
            if e["e"] == "cross" and e[kind]:
                e[kind].pop()
                return True
        return False
    return f


def other_point(x):
    for e in x["ev"]:
        if e["e"] == "verify" and e["inc"] and e["what"] == "point moved":
            e["inc"].pop()
            return True
    return False


def run(c):
    tria.java()
    c.model("ExactGeomTest")
    exe = tria.build(c, "verify", "verify.cpp", dc=False)
    t = c.drive(exe, ["--n", c.q(2500, 12000), "--nmax", 14], "small", timeout=800)
    c.validate("VerifyTrace", t)
    u = c.drive(exe, ["--n", c.q(250, 1500), "--nmax", 60, "--seed", 77], "large", timeout=800)
    c.validate("VerifyTrace", u)
    for f in (accept_damaged, reject_intact, forget("missing"), forget("surplus"), other_point):
        c.control("VerifyTrace", t, f)
