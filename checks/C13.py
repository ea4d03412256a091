def drop_entry(x):
    for e in x["ev"]:
        if e["e"] == "obs" and e["content"]:
            e["content"] = e["content"][1:]
            return True
    return False


def run(c):
    exe = c.build("seq_tables", ["seq_tables.cpp"], libs=("-ltbb", "-lboost_serialization"))
    for mode, kind in (("bulkset", "set"), ("bulkmap", "map"), ("bulkbag", "bag")):
        t = c.drive(exe, ["--mode", mode, "--n", c.q(1500, 15000)], name=mode)
        c.validate("StoreTrace", t, env={"KIND": kind})
        c.control("StoreTrace", t, drop_entry, env={"KIND": kind})
    # the interleavings inside the parallel operations
    exe = c.build("merge_tables", ["merge_tables.cpp"], flags=["-I" + __import__("vcommon").HARN + "/sched"], opt="-O2")
    for mode, kind in (("set", "set"), ("map", "map"), ("mmap", "bag")):
        t = c.drive(exe, ["--mode", mode, "--programs", c.q(150, 1500), "--budget", c.q(1500, 6000)], name="sched-" + mode)
        c.validate("StoreTrace", t, env={"KIND": kind})
    c.assumptions += ["keys and values are non-zero", "sequentially consistent atomics in the explored schedules",
                      "a parallel map merge is not asked to decide between two values of one key"]
