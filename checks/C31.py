import tria


def sample(x, least=3):
    for e in x["ev"]:
        if e["e"] == "sample" and len(e["points"]) >= least and e["adj"]:
            return e
    return None


def one_way(x):
    e = sample(x)
    if not e:
        return False
    e["adj"].pop()
    e["w"].pop()
    e["xadj"][-1] -= 1
    return True


def shifted(x):
    e = sample(x)
    if not e:
        return False
    e["points"][0], e["points"][1] = e["points"][1], e["points"][0]
    a, b = {e["adj"][i] for i in range(e["xadj"][0], e["xadj"][1])} - {1}, {e["adj"][i] for i in range(e["xadj"][1], e["xadj"][2])} - {0}
    return a != b


def weight(x):
    for e in x["ev"]:
        if e["e"] == "sample" and e["f"] and e["w"]:
            e["w"][0] = e["w"][0] - 3 if e["w"][0] > 50 else e["w"][0] + 3
            return True
    return False


def too_few(x):
    e = sample(x)
    if not e:
        return False
    e["want"] = len(e["points"]) - 1
    return True


def other_block(x):
    e = sample(x)
    if not e or e["parts"] < 2:
        return False
    e["part"][0] = (e["part"][0] + 1) % e["parts"]
    return True


def unweighted(x):
    for e in x["ev"]:
        if e["e"] == "sample" and e["f"] and e["cw"]:
            e["cw"] = []
            return True
    return False


def beyond(x):
    e = sample(x)
    if not e:
        return False
    e["adj"][0] = len(e["points"])
    return True


def lost_entry(x):
    for e in x["ev"]:
        if e["e"] == "rows":
            e["rows"][0].pop()
            return True
    return False


def lost_total(x):
    for e in x["ev"]:
        if e["e"] == "rows":
            e["last"] -= 2
            e["len"] -= 2
            return True
    return False


def run(c):
    tria.java()
    c.model("ExactGeomTest")
    c.model("SampleGraph", c.q("SampleGraph.cfg", "SampleGraph_3.cfg"), must_cover=["Take", "Insert", "Add", "Sum", "Fetch", "Put"])
    c.model("SampleGraph", "SampleGraph_plain.cfg", expect="violated")
    c.model("SampleGraph", "SampleGraph_twice.cfg", expect="violated")
    exe = tria.build(c, "lb", "lb.cpp", lb=True)
    t = c.drive(exe, ["--graph", 1, "--n", c.q(4000, 40000), "--nmax", 40], "small", timeout=800)
    c.validate("SampleGraphTrace", t)
    u = c.drive(exe, ["--graph", 1, "--n", c.q(60, 600), "--nmax", 300, "--salt", 1], "large", timeout=800)
    c.validate("SampleGraphTrace", u)
    v = c.drive(exe, ["--graph", 1, "--big", 1, "--n", c.q(8, 60), "--nmax", 66000, "--salt", 2], "rows", timeout=800)
    c.validate("SampleGraphTrace", v)
    for f in (lost_entry, lost_total):
        c.control("SampleGraphTrace", v, f)
    for f in (one_way, shifted, weight, too_few, other_block, unweighted, beyond):
        c.control("SampleGraphTrace", t, f)
