import tria


def split(x, least=2):
    for e in x["ev"]:
        if e["e"] == "split" and any(len([v for v in q["v"] if v < 1900000000]) >= least for q in e["parts"]):
            return e, [q for q in e["parts"] if len([v for v in q["v"] if v < 1900000000]) >= least][0]
    return None, None


def lose(x):
    e, q = split(x)
    if q:
        q["v"].pop(0)
        q["size"] -= 1
    return bool(q)


def twice(x):
    e, q = split(x)
    if q:
        for o in e["parts"]:
            if o is not q:
                o["v"].insert(0, q["v"][0])
                o["size"] += 1
                return True
    return False


def shrink(x):
    e, q = split(x)
    if q:
        q["hi"][0] = q["lo"][0] - 1
    return bool(q)


def no_corner(x):
    e, q = split(x)
    if q and not e["ign"]:
        q["v"].pop()
        q["size"] -= 1
        return True
    return False


def run(c):
    exe = tria.build(c, "parts", "parts.cpp", dc=False)
    t = c.drive(exe, ["--n", c.q(3000, 25000), "--nmax", 60], "parts", timeout=800)
    c.validate("PartTrace", t)
    u = c.drive(exe, ["--n", c.q(300, 2000), "--nmax", 600], "large", timeout=800)
    c.validate("PartTrace", u)
    for f in (lose, twice, shrink, no_corner):
        c.control("PartTrace", t, f)
