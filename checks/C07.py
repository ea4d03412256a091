import tria


def ev(x, kind):
    return [e for e in x["ev"] if e.get("e") == kind]


def miss(x):
    """the balls case with a real intersection answers no"""
    e = ev(x, "balls")
    p = ev(x, "parts")
    pts = ev(x, "pts")
    if not e or not p or not pts:
        return False
    P = pts[0]["p"]
    for q in e[0]["q"]:
        for i, part in enumerate(p[0]["parts"]):
            for v in part["v"]:
                if v <= len(P) and sum((a - b) ** 2 for a, b in zip(P[v - 1], q["c"])) == q["r"] ** 2:
                    q["a"][i] = False
                    return True
    return False


def lost_cell(x):
    for e in ev(x, "tree"):
        for q in e["q"]:
            if len(q["cells"]) > 1:
                q["cells"].pop()
                return True
    return False


def refused(x):
    for e in ev(x, "tree"):
        e["in"][0]["ok"] = False
        return True
    return False


def bounds(x):
    for e in ev(x, "parts"):
        for p in e["parts"]:
            if p["hi"]:
                p["hi"][0] -= 1
                return True
    return False


def miss_sphere(x):
    e = ev(x, "spheres")
    if e and e[0]["q"]:
        q = e[0]["q"][0]
        to = ev(x, "parts")[0]["to"]
        if to[q["v"][0] - 1] >= 0:
            q["a"][to[q["v"][0] - 1]] = False
            return True
    return False


def run(c):
    tria.java()
    c.model("BoxesTest")
    c.model("AABBTree")
    c.model("AABBTree", cfg="AABBTree_2.cfg")
    c.model("AABBTree", cfg="AABBTree_ceil.cfg", expect="violated")
    if c.tier == "thorough":
        c.model("AABBTree", cfg="AABBTree_3.cfg")
    exe = tria.build(c, "inter", "inter.cpp", dc=False)
    t = c.drive(exe, ["--n", c.q(3600, 60000)], "border tests", timeout=900)
    c.validate("InterTrace", t)
    for f in (miss, lost_cell, refused, bounds, miss_sphere):
        c.control("InterTrace", t, f)
    c.assumptions += ["boxes put into the tree are cells of its grid (the only use in the code)",
                      "balls have integer centres and radii times a power of two; circumspheres are the ones the code computes"]
