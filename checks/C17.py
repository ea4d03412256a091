def wrong_point(x):
    for e in x["ev"]:
        if e["e"] == "obs" and e["got"]:
            e["got"][1] += 1
            return True
    return False


def extra_member(x):
    for e in x["ev"]:
        if e["e"] == "obs":
            e["has"].append(e["off"] + e["n"])
            return True
    return False


def run(c):
    c.model("PointIds", must_cover=["DoWrite", "Grow"])
    c.model("PointIds", "PointIds_3.cfg")
    c.model("PointIds", "PointIds_nomask.cfg", expect="violated")
    exe = c.build("points", ["points.cpp"], flags=("-fsanitize=address",), libs=("-ltbb", "-lboost_serialization", "-fsanitize=address"))
    t = c.drive(exe, ["--n", c.q(2000, 20000)])
    c.validate("PointStoreTrace", t)
    c.control("PointStoreTrace", t, wrong_point)
    c.control("PointStoreTrace", t, extra_member)
    c.assumptions += ["ids passed to at() and operator[] are ids of the store", "a slot nobody wrote holds an arbitrary point"]
