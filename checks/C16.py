def drop_entry(x):
    for e in x["ev"]:
        if e["e"] == "obs" and e["fwd"]:
            e["fwd"] = e["fwd"][:-1]
            return True
    return False


def stale_value(x):
    for e in x["ev"]:
        if e["e"] == "obs":
            for g in e["got"]:
                if g[1] > 0:
                    g[1] -= 1
                    return True
    return False


def run(c):
    c.model("BlockStore", must_cover=["DoLookup", "DoSplit"])
    c.model("BlockStore", "BlockStore_wrongbound.cfg", expect="violated")
    exe = c.build("blocks", ["blocks.cpp"], flags=("-fsanitize=address",), libs=("-ltbb", "-lboost_serialization", "-fsanitize=address"))
    n = c.q(2500, 20000)
    plain = c.drive(exe, ["--mode", "blk2", "--n", n], "blk2")
    c.validate("BlockStoreTrace", plain, env={"KIND": "all"})
    for mode, m in (("simp", n), ("small", c.q(3000, 9216)), ("blk1", n)):
        t = c.drive(exe, ["--mode", mode, "--n", m], mode)
        c.validate("BlockStoreTrace", t, env={"KIND": "used"})
    tsan = c.build("blocks_tsan", ["blocks.cpp"], flags=("-fsanitize=thread",), libs=("-ltbb", "-lboost_serialization", "-fsanitize=thread"))
    t = c.drive(tsan, ["--mode", "thr", "--n", c.q(400, 4000)], "thr")
    c.validate("BlockStoreTrace", t, env={"KIND": "used"})
    c.control("BlockStoreTrace", plain, drop_entry, env={"KIND": "all"})
    c.control("BlockStoreTrace", plain, stale_value, env={"KIND": "all"})
    c.assumptions += ["blocks are non-empty and do not overlap", "at() is called for ids inside a block only",
                      "writers of the concurrent histories write disjoint ids"]
