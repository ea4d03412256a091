import tria


def widen(x):
    for e in x["ev"]:
        if e["e"] == "stats":
            e["hi"][1] += 1
            return True
    return False


def middle(x):
    for e in x["ev"]:
        if e["e"] == "stats":
            e["mid"][0] += 1
            return True
    return False


def other_point(x):
    for e in x["ev"]:
        if e["e"] == "file" and len(e["p"]) > 1:
            e["p"].pop()
            return True
    return False


def run(c):
    exe = tria.build(c, "parts", "parts.cpp", dc=False)
    t = c.drive(exe, ["--mode", "stats", "--n", c.q(4000, 30000), "--nmax", 40], "stats", timeout=800)
    c.validate("PartTrace", t)
    u = c.drive(exe, ["--mode", "stats", "--n", c.q(300, 2000), "--nmax", 1000], "large", timeout=800)
    c.validate("PartTrace", u)
    for f in (widen, middle, other_point):
        c.control("PartTrace", t, f)
