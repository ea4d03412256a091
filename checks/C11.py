def drop_key(x):
    for e in x["ev"]:
        if e["e"] == "obs" and e["content"]:
            e["content"] = e["content"][1:]
            return True
    return False


def run(c):
    c.model("LinearProbing", must_cover=["Insert", "Filter"])
    c.model("LinearProbing", "LinearProbing_old.cfg", expect="violated")
    exe = c.build("seq_tables", ["seq_tables.cpp"], libs=("-ltbb", "-lboost_serialization"))
    t = c.drive(exe, ["--mode", "set", "--n", c.q(5000, 40000)])
    c.validate("StoreTrace", t, env={"KIND": "set"})
    c.control("StoreTrace", t, drop_key, env={"KIND": "set"})
    c.assumptions += ["keys are non-zero", "a table that does not grow is given enough cells by its user"]
