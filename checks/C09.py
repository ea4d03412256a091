def run(c):
    c.model("ConcMap", must_cover=["CallIns", "Claim", "Store", "Read", "RetGet"])
    c.model("ConcMap", "ConcMap_lastwins.cfg", expect="violated")   # why values are only regular
    exe = c.build("conc_tables", ["conc_tables.cpp"], opt="-O2")
    t = c.drive(exe, ["--mode", "map", "--programs", c.q(50, 600), "--budget", c.q(3000, 40000), "--bound", c.q(2, 3),
                      "--keep", c.q(60, 150), "--big", c.q(4, 20)])
    c.validate("ConcMapTrace", t)

    def corrupt(x):
        for e in x["ev"]:
            if e["e"] == "final" and e["content"]:
                e["content"][0][1] += 7
                return True
        return False
    c.control("ConcMapTrace", t, corrupt)
    c.assumptions += ["sequentially consistent execution of atomic operations",
                      "initial capacity at least twice the number of inserting threads"]
