def run(c):
    exe = c.build("conc_tables", ["conc_tables.cpp"], opt="-O2")
    t = c.drive(exe, ["--mode", "mmap", "--programs", c.q(50, 600), "--budget", c.q(3000, 40000), "--bound", c.q(2, 3),
                      "--keep", c.q(60, 150), "--big", c.q(4, 20)])
    c.validate("ConcBagTrace", t)

    def corrupt(x):
        for e in x["ev"]:
            if e["e"] == "final" and len(e["content"]) > 1:
                e["content"].pop()
                return True
        return False
    c.control("ConcBagTrace", t, corrupt)
    c.assumptions += ["sequentially consistent execution of atomic operations",
                      "initial capacity at least twice the number of inserting threads"]
