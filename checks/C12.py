def swap_value(x):
    for e in x["ev"]:
        if e["e"] == "obs" and e["got"]:
            e["got"][0][1] += 1
            return True
    return False


def run(c):
    c.model("LinearProbing", must_cover=["Insert", "Filter"])
    c.model("LinearProbing", "LinearProbing_multi.cfg")
    c.model("LinearProbing", "LinearProbing_int.cfg", expect="violated")
    exe = c.build("seq_tables", ["seq_tables.cpp"], libs=("-ltbb", "-lboost_serialization"))
    for mode, kind in (("map", "map"), ("mmap", "bag")):
        t = c.drive(exe, ["--mode", mode, "--n", c.q(3000, 30000)], name=mode)
        c.validate("StoreTrace", t, env={"KIND": kind})
        c.control("StoreTrace", t, swap_value, env={"KIND": kind})
    c.assumptions += ["keys and values are non-zero (zero means absent)"]
