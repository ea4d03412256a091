def run(c):
    c.model("ConcSet", must_cover=["Call", "Lin", "Ret"])
    c.model("GrowTable", must_cover=["ICas", "GCopy", "GDrain", "IWithdraw", "GPublish", "LRefresh"])
    c.model("GrowTable", "GrowTable_unguarded.cfg", expect="violated")   # control: without the announcement keys are lost
    exe = c.build("conc_tables", ["conc_tables.cpp"], opt="-O2")
    t = c.drive(exe, ["--mode", "set", "--programs", c.q(60, 600), "--budget", c.q(3000, 40000), "--bound", c.q(2, 3),
                      "--keep", c.q(60, 150), "--big", c.q(4, 20)])
    c.validate("ConcSetTrace", t)

    def corrupt(x):
        for e in x["ev"]:
            if e["e"] == "ret":
                e["r"] = not e["r"]
                return True
        return False
    c.control("ConcSetTrace", t, corrupt)
    c.assumptions += ["sequentially consistent execution of atomic operations",
                      "initial capacity at least twice the number of inserting threads"]
