import tria


def drop_simplex(x):
    for e in x["ev"]:
        if e["e"] == "mesh" and len(e["s"]) > 6:
            s = e["s"].pop(3)
            for t in e["s"]:
                for i in range(len(t)):
                    if i > len(t) // 2 and t[i] == s[0]:
                        t[i] = -1
            return True
    return False


def move_point(x):
    """the point lies elsewhere than the mesh says"""
    p = x["ev"][0]
    if p["e"] == "pts" and len(p["p"]) > 12:
        p["p"][0] = p["p"][-1]
        return True
    return False


def flip(x):
    """another triangulation of the same points (2D): the diagonal of two adjacent triangles exchanged"""
    if x["ev"][0].get("d") != 2:
        return False
    P = x["ev"][0]
    def co(v):
        return P["inf"][v - P["base"]] if v >= P["base"] else P["p"][v - 1]
    def ori(a, b, c):
        a, b, c = co(a), co(b), co(c)
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    for e in x["ev"]:
        if e["e"] != "mesh":
            continue
        by = {t[0]: t for t in e["s"]}
        for t in e["s"]:
            for k in range(3):
                n = t[4 + k]
                if n < 0:
                    continue
                u = by[n]
                a = t[1 + k]
                sh = [v for v in t[1:4] if v != a]
                b = [v for v in u[1:4] if v not in sh][0]
                c, d = sh
                if ori(a, b, c) * ori(a, b, d) >= 0:
                    continue
                def across(q, v):
                    return q[4 + q[1:4].index(v)]
                # neighbours over edges ac, ad, bc, bd
                nac, nad, nbc, nbd = across(t, d), across(t, c), across(u, d), across(u, c)
                def mk(i, vs, nb):
                    o = sorted(range(3), key=lambda j: vs[j])
                    return [i] + [vs[j] for j in o] + [nb[j] for j in o]
                t2 = mk(t[0], [a, b, c], [nbc, nac, u[0]])
                u2 = mk(u[0], [a, b, d], [nbd, nad, t[0]])
                for (m, old, new) in ((nad, t[0], u[0]), (nbc, u[0], t[0])):
                    if m >= 0:
                        by[m][4:] = [new if z == old else z for z in by[m][4:]]
                t[:] = t2
                u[:] = u2
                return True
    return False


def run(c):
    tria.java()
    c.model("ExactGeomTest")
    if not c.quick:
        c.model("ExactGeomTest", "ExactGeomTest_3.cfg")
    for m in c.q(("DCModel.cfg", "DCModel_6.cfg", "DCModel_hard.cfg"), ("DCModel.cfg", "DCModel_5.cfg", "DCModel_6.cfg", "DCModel_hard.cfg")):
        c.model("DCModel", m)
    c.model("DCModel", "DCModel_nowholewalk.cfg", expect="violated")
    c.model("DCModel", "DCModel_nokeepold.cfg", expect="violated")
    exe = tria.build(c, "tria", "tria.cpp")
    env = {"VIEW": "delaunay"}
    t = c.drive(exe, ["--n", c.q(4000, 30000), "--nmax", 50], "small", timeout=800)
    c.validate("TriaTrace", t, env=env)
    u = c.drive(exe, ["--n", c.q(300, 4000), "--nmax", 400, "--salt", 1], "large", timeout=800)
    c.validate("TriaTrace", u, env=env)
    for f in (drop_simplex, move_point, flip):
        c.control("TriaTrace", t, f, env=env)
