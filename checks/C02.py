import os
import tria
import C01


def run(c):
    tria.java()
    c.model("ExactGeomTest")
    for m in c.q(("LBModel.cfg", "LBModel_3.cfg"), ("LBModel.cfg", "LBModel_3.cfg", "LBModel_4.cfg")):
        c.model("LBModel", m)
    c.model("LBModel", "LBModel_walk.cfg", expect="violated")
    c.model("LBModel", "LBModel_empty.cfg", expect="violated")
    exe = tria.build(c, "lb", "lb.cpp", lb=True)
    env = {"VIEW": "delaunay"}
    t = c.drive(exe, ["--tria", 1, "--n", c.q(4000, 30000), "--nmax", 50], "small", timeout=800)
    c.validate("TriaTrace", t, env=env)
    u = c.drive(exe, ["--tria", 1, "--n", c.q(200, 3000), "--nmax", 400, "--salt", 1], "large", timeout=800)
    c.validate("TriaTrace", u, env=env)
    for f in (C01.drop_simplex, C01.move_point, C01.flip):
        c.control("TriaTrace", t, f, env=env)
