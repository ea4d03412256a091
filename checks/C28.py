import tria
from vcommon import REPO


def gen(x, least=2):
    for e in x["ev"]:
        if e["e"] == "gen" and e["n"] >= least:
            return e
    return None


def one_less(x):
    e = gen(x)
    if not e:
        return False
    e["p"].pop()
    e["q"].pop()
    return True


def outside(x):
    e = gen(x)
    if not e:
        return False
    e["p"][1][0] = e["q"][1][0] = [e["hi"][0][0], e["hi"][0][1] + 1, e["hi"][0][2]]
    return True


def other(x):
    e = gen(x)
    if not e or e["p"][0] == e["p"][1]:
        return False
    e["q"][0], e["q"][1] = e["q"][1], e["q"][0]
    return True


def other_kind(x):
    e = gen(x, 0)
    if not e:
        return False
    e["kind"] = "none"
    return True


def lost(x):
    for e in x["ev"]:
        if e["e"] == "sort" and len(e["q"]) > 1 and e["q"][0] != e["q"][1]:
            e["q"][0] = e["q"][1]
            return True
    return False


def run(c):
    tria.java()
    for f in ("FloatGeomTest", "GenSlots"):
        c.model(f)
    c.model("GenSlots", "GenSlots_index.cfg")
    c.model("GenSlots", "GenSlots_pairs.cfg")
    for f in ("floor", "oddpairs", "fromzero"):
        c.model("GenSlots", "GenSlots_%s.cfg" % f, expect="violated")
    exe = tria.build(c, "gen", "gen.cpp", extra=[REPO + "/src/lib/SpatialSort.cpp"], libs=("-lboost_program_options",), lb=True)
    t = c.drive(exe, ["--n", c.q(4000, 30000), "--nmax", 40], "small", timeout=600)
    c.validate("GenTrace", t)
    u = c.drive(exe, ["--n", c.q(200, 2000), "--nmax", 400, "--salt", 1], "large", timeout=600)
    c.validate("GenTrace", u)
    for f in (one_less, outside, other, other_kind, lost):
        c.control("GenTrace", t, f)
