import tria


def mesh(x, least=6):
    for e in x["ev"]:
        if e["e"] == "mesh" and len(e["s"]) >= least:
            return e
    return None


def one_sided(x):
    e = mesh(x)
    if not e:
        return False
    t = e["s"][2]
    k = [i for i in range(len(t) // 2 + 1, len(t)) if t[i] >= 0][0]
    t[k] = -1
    return True


def wrong_slot(x):
    e = mesh(x)
    if not e:
        return False
    for t in e["s"]:
        if t[-1] != t[-2]:
            t[-1], t[-2] = t[-2], t[-1]
            return True
    return False


def unsorted_vertices(x):
    e = mesh(x)
    if not e:
        return False
    t = e["s"][1]
    m = len(t) // 2
    t[1], t[2] = t[2], t[1]
    t[m + 1], t[m + 2] = t[m + 2], t[m + 1]
    return True


def hull_missing(x):
    e = mesh(x)
    if not e:
        return False
    e["hull"].pop()
    return True


def hull_extra(x):
    e = mesh(x)
    if not e:
        return False
    base = x["ev"][0]["base"]
    for t in e["s"]:
        if t[len(t) // 2] < base:
            e["hull"].append(t[0])
            return True
    return False


def lost(x):
    e = mesh(x)
    if not e:
        return False
    e["bad"].append(e["s"][0][0])
    return True


def run(c):
    tria.java()
    c.model("DCModel", must_cover=["DoVisit", "DoFix", "Merge", "Finish"])
    c.model("DCModel", "DCModel_nofirstlayer.cfg", expect="violated")
    exe = tria.build(c, "tria", "tria.cpp")
    env = {"VIEW": "links"}
    t = c.drive(exe, ["--n", c.q(4000, 30000), "--nmax", 50], "small", timeout=800)
    c.validate("TriaTrace", t, env=env)
    u = c.drive(exe, ["--n", c.q(300, 4000), "--nmax", 400, "--salt", 1], "large", timeout=800)
    c.validate("TriaTrace", u, env=env)
    lb = tria.build(c, "lb", "lb.cpp", lb=True)
    w = c.drive(lb, ["--tria", 1, "--n", c.q(1500, 10000), "--nmax", 60, "--salt", 2], "lb", timeout=800)
    c.validate("TriaTrace", w, env=env)
    for f in (one_sided, wrong_slot, unsorted_vertices, hull_missing, hull_extra, lost):
        c.control("TriaTrace", t, f, env=env)
