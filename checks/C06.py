import tria


def tree(x, least=2):
    for e in x["ev"]:
        if e["e"] == "tree":
            for q in e["nodes"]:
                if q["leaf"] and q["p"] and len([v for v in q["v"] if v < 1900000000]) >= least:
                    return e, q
    return None, None


def lose(x):
    e, q = tree(x)
    if q:
        q["v"].pop(0)
    return bool(q)


def twice(x):
    e, q = tree(x)
    if q:
        for o in e["nodes"]:
            if o is not q and o["leaf"]:
                o["v"].insert(0, q["v"][0])
                return True
    return False


def shrink_ancestor(x):
    e, q = tree(x)
    if q:
        o = e["nodes"][q["p"] - 1]
        o["hi"][0] = o["lo"][0] - 1
    return bool(q)


def no_corner(x):
    e, q = tree(x)
    if q:
        q["v"].pop()
    return bool(q)


def flat_order(x):
    for e in x["ev"]:
        if e["e"] == "flat" and len(e["nodes"]) > 2 and e["nodes"][1]["v"] != e["nodes"][2]["v"]:
            e["nodes"][1], e["nodes"][2] = e["nodes"][2], e["nodes"][1]
            return True
    return False


def run(c):
    c.model("LBTree", c.q("LBTree.cfg", "LBTree_7.cfg"))
    c.model("LBTree", "LBTree_closed.cfg", expect="violated")
    c.model("LBTree", "LBTree_open.cfg", expect="violated")
    exe = tria.build(c, "lb", "lb.cpp", lb=True)
    t = c.drive(exe, ["--n", c.q(6000, 40000), "--nmax", 40], "trees", timeout=800)
    c.validate("LBTreeTrace", t)
    u = c.drive(exe, ["--n", c.q(200, 2000), "--nmax", 600, "--salt", 1], "large", timeout=800)
    c.validate("LBTreeTrace", u)
    for f in (lose, twice, shrink_ancestor, no_corner, flat_order):
        c.control("LBTreeTrace", t, f)
