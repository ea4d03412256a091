"""Shared machinery of the checks: build harness drivers against /repo's working tree, run them,
model check specifications and validate recorded histories with TLC, report, write evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
TLA = "/opt/veriftools/tla"
CXX = os.environ.get("VERIF_CXX", "g++")
BASE_FLAGS = ["-std=c++17", "-w", "-I" + HARN + "/shim", "-I" + HARN,
              "-I" + REPO + "/include", "-I" + REPO + "/include/utils"]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/src", HARN):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


_TH = None


def tree_hash():
    global _TH
    if _TH is None:
        _TH = _tree_hash()
    return _TH


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = {}
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.level = "model_checking"

    @property
    def quick(self):
        return self.tier == "quick"

    def q(self, a, b):
        return a if self.quick else b

    # ---------------------------------------------------------------- build
    def build(self, name, sources, flags=(), libs=("-ltbb",), opt="-O1", timeout=800, first=()):
        """compile `sources` (paths; relative ones are in harness/) into one binary; a source can be a
        pair (path, extra flags of this file)"""
        flags = [opt] + list(first) + BASE_FLAGS + list(flags)
        key = hashlib.sha256((tree_hash() + repr((name, sources, flags, libs, CXX))).encode()).hexdigest()[:20]
        d = os.path.join(BUILD, key)
        exe = os.path.join(d, name)
        if os.path.exists(exe):
            return exe
        os.makedirs(BUILD, exist_ok=True)
        w = tempfile.mkdtemp(dir=BUILD)
        pairs = [x if isinstance(x, tuple) else (x, ()) for x in sources]
        srcs = [s if os.path.isabs(s) else os.path.join(HARN, s) for s, _ in pairs]
        t = time.time()

        def one(i):
            o = os.path.join(w, "o%d.o" % i)
            r = subprocess.run([CXX] + flags + list(pairs[i][1]) + ["-c", srcs[i], "-o", o], capture_output=True, text=True, timeout=timeout)
            return o, r

        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(srcs))))
        for o, r in res:
            if r.returncode:
                shutil.rmtree(w, ignore_errors=True)
                raise CheckError("harness %s does not compile:\n%s" % (name, r.stderr[-4000:]))
        r = subprocess.run([CXX] + [o for o, _ in res] + ["-o", os.path.join(w, name)] + list(libs) + ["-lpthread"],
                           capture_output=True, text=True, timeout=timeout)
        if r.returncode:
            shutil.rmtree(w, ignore_errors=True)
            raise CheckError("harness %s does not link:\n%s" % (name, r.stderr[-4000:]))
        for o, _ in res:
            os.unlink(o)
        try:
            os.rename(w, d)
        except OSError:
            shutil.rmtree(w, ignore_errors=True)
        log("[build] %s %.1fs" % (name, time.time() - t))
        return exe

    def build_sched(self, name, sources, flags=(), libs=("-ltbb",), opt="-O1"):
        """build for the access-level scheduler (harness/common/tsched.h): everything but the scheduler
        itself is compiled with the hooks of -fsanitize=thread, the sanitizer's runtime is not linked"""
        t = ("-fsanitize=thread",)
        return self.build(name, [(s, t) if isinstance(s, str) else (s[0], tuple(s[1]) + t) for s in sources] + ["sched/tsched.cpp"],
                          flags=tuple(flags), libs=tuple(libs) + ("-ldl",), opt=opt)

    # ---------------------------------------------------------------- drive
    def drive(self, exe, args, name="trace", timeout=600):
        """run a driver; returns the NDJSON file it wrote"""
        out = os.path.join(self.tmp, name + ".ndjson")
        cmd = [exe, "--out", out, "--seed", str(self.seed)] + [str(a) for a in args]
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out: %s" % cmd)
        if r.returncode:
            raise CheckError("driver failed (%d): %s\n%s" % (r.returncode, cmd, r.stderr[-2000:]))
        log("[drive] %s %s %.1fs %s" % (os.path.basename(exe), " ".join(map(str, args)), time.time() - t, r.stderr.strip()[-200:]))
        m = dict(re.findall(r"(\w+)=(\d+)", r.stderr))
        for k, v in m.items():
            self.extra["driver_" + k] = self.extra.get("driver_" + k, 0) + int(v)
        self.last_cmd = cmd
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, xmx="6g", args=(), xss="64m"):
        cfg = cfg or module + ".cfg"
        meta = tempfile.mkdtemp(dir=self.tmp)
        cp = ":".join([os.path.join(VERIF, "spec"), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
        jcls = os.path.join(BUILD, "java")
        if os.path.isdir(jcls):
            cp = jcls + ":" + cp
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss" + xss, "-Djava.awt.headless=true",
               "-Djava.io.tmpdir=" + self.tmp, "-cp", cp, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", cfg] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=SPEC, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout + r.stderr
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        gen = int(m[-1][0].replace(",", "")) if m else 0
        dist = int(m[-1][1].replace(",", "")) if m else 0
        left = int(m[-1][2].replace(",", "")) if m else -1
        if r.returncode == 0 and "No error has been found" in out:
            verdict = "ok"
        elif re.search(r"Error: (Invariant .* is violated|Action property .* is violated|Temporal properties were violated|The invariant of|Property .* is violated)", out) \
                or "is violated by the initial state" in out or "Deadlock reached" in out:
            verdict = "violated"
        elif "The error occurred when TLC was evaluating the nested" in out and "Error: The behavior up to this point is:" in out \
                and not re.search("StackOverflow|OutOfMemory|heap space", out):
            verdict = "undefined"          # the specification gives the next step no meaning
        else:
            verdict = "error"
        log("[tlc] %s/%s %s states=%d distinct=%d %.1fs" % (module, cfg, verdict, gen, dist, time.time() - t))
        return {"verdict": verdict, "generated": gen, "distinct": dist, "left": left, "out": out, "wall": time.time() - t}

    def model(self, module, cfg=None, expect="ok", must_cover=(), **kw):
        """model check a specification on its own.  expect='violated' is used for controls: the
        specification with a known hole must be rejected (otherwise it decides nothing)."""
        args = list(kw.pop("args", ()))
        if must_cover:
            args += ["-coverage", "1"]
        r = self.tlc(module, cfg, args=args, **kw)
        name = (cfg or module + ".cfg")
        if r["verdict"] != expect:
            tail = r["out"][-3000:]
            raise CheckError("specification %s: expected %s, TLC says %s\n%s" % (name, expect, r["verdict"], tail))
        for act in must_cover:
            mm = re.findall(r"<%s line .*?>: (\d+):(\d+)" % re.escape(act), r["out"])
            if not mm or all(int(b) == 0 for _, b in mm):
                raise CheckError("specification %s: action %s is never taken" % (name, act))
        if expect == "ok":
            self.states += r["distinct"]
            self.transitions += r["generated"]
        self.models[name] = {"verdict": r["verdict"], "states": r["distinct"], "transitions": r["generated"],
                             "wall_s": round(r["wall"], 1)}
        return r

    @staticmethod
    def load(path):
        with open(path) as f:
            return [json.loads(x) for x in f if x.strip()]

    @staticmethod
    def dump(path, hs):
        with open(path, "w") as f:
            for x in hs:
                f.write(json.dumps(x, separators=(",", ":")) + "\n")

    def _locate(self, out):
        hh = re.findall(r"/\\ h = (\d+)", out)
        ll = re.findall(r"/\\ l = (\d+)", out)
        return (int(hh[-1]), int(ll[-1])) if hh and ll else None

    def validate(self, module, path, cfg=None, env=None, what="history", shards=None, explain=None, count=True, **kw):
        """validate every history in `path` against a trace specification.  A trace specification has one
        initial state per history and reads one event per step, so all are accepted iff the invariant
        holds and the number of distinct states is the number of events plus the number of histories."""
        hs = self.load(path)
        if not hs:
            raise CheckError("no histories recorded")
        nev = sum(len(x["ev"]) for x in hs)
        size = os.path.getsize(path)
        if shards is None:
            shards = 1 + int(size / 6e6)
        parts = [hs[i::shards] for i in range(shards)]
        parts = [p for p in parts if p]

        def one(i):
            p = path + ".%d" % i if len(parts) > 1 else path
            if len(parts) > 1:
                self.dump(p, parts[i])
            e = {"TRACE": p}
            e.update(env or {})
            return self.tlc(module, cfg, env=e, workers=max(1, 8 // min(6, len(parts))), **kw)

        with ThreadPoolExecutor(max(1, min(6, len(parts)))) as ex:
            rs = list(ex.map(one, range(len(parts))))
        bad = False
        for part, r in zip(parts, rs):
            exp = sum(len(x["ev"]) + 1 for x in part)
            if r["verdict"] == "ok":
                if r["distinct"] != exp:
                    raise CheckError("%s: %d states instead of %d: the trace specification got stuck" % (module, r["distinct"], exp))
            elif r["verdict"] in ("violated", "undefined"):
                loc = self._locate(r["out"])
                if not loc:
                    raise CheckError("cannot locate the rejected history\n" + r["out"][-3000:])
                bad = True
                self._rejected(module, cfg, part, loc, env, explain, kw)
            else:
                raise CheckError("TLC failed on %s\n%s" % (module, r["out"][-4000:]))
            if count:
                self.states += r["distinct"]
                self.transitions += r["generated"]
        if count and not bad:
            self.traces += len(hs)
            self.events += nev
        if count and len(self.samples) < 3:
            s = hs[len(hs) // 2]
            self.samples.append({"h": s["h"], "meta": s.get("meta", "")[:300], "ev": s["ev"][:6]})
        return not bad

    def _rejected(self, module, cfg, part, loc, env, explain, kw):
        hist = part[loc[0] - 1]
        # confirm on that history alone before reporting
        p = os.path.join(self.tmp, "confirm.ndjson")
        self.dump(p, [hist])
        e = {"TRACE": p}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=1, **kw)
        if r["verdict"] not in ("violated", "undefined"):
            raise CheckError("rejection of history %s is not repeatable" % hist["h"])
        loc2 = self._locate(r["out"])
        l = loc2[1]
        states = r["out"][r["out"].find("Error:"):]
        at = max(0, l - 1 if r["verdict"] == "undefined" else l - 2)
        ev = hist["ev"][at] if at < len(hist["ev"]) else None
        self.violation({"spec": module, "history": hist, "rejected_event_index": at, "rejected_event": ev,
                        "driver": getattr(self, "last_cmd", None), "tlc": states[-6000:]},
                       "%s rejects history %s (%s) at event %d: %s" % (module, hist["h"], hist.get("meta", "")[:200], at, json.dumps(ev)[:300]))

    def control(self, module, path, corrupt, cfg=None, env=None, pick=None, **kw):
        """binding control: a corrupted copy of a recorded history has to be rejected"""
        if self.violations:
            return                          # the recorded histories are not those of a correct tree
        hs = self.load(path)
        for x in hs:
            if pick and not pick(x):
                continue
            y = json.loads(json.dumps(x))
            if corrupt(y):
                p = os.path.join(self.tmp, "control.ndjson")
                self.dump(p, [y])
                e = {"TRACE": p}
                e.update(env or {})
                r = self.tlc(module, cfg, env=e, workers=1, **kw)
                if r["verdict"] != "violated":
                    raise CheckError("control: corrupted history accepted by %s (%s)\n%s" % (module, r["verdict"], r["out"][-1500:]))
                self.extra["controls_rejected"] = self.extra.get("controls_rejected", 0) + 1
                return
        raise CheckError("control: no history to corrupt for %s" % module)

    # ---------------------------------------------------------------- results
    def violation(self, replay, text):
        os.makedirs(REPLAYS, exist_ok=True)
        n = len(self.violations) + 1
        p = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, n))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "text": text, **replay}, f, indent=1)
        self.violations.append((text, p))

    def known_finding(self, text):
        self.known.append(text)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples, "models": self.models}
        cov.update(self.extra)
        if self.known:
            cov["known_findings"] = self.known
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for text, p in self.violations:
            log("violation: " + text)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def main(prop, fn):
    c = Ctx(prop)
    try:
        try:
            fn(c)
        except Exception:
            # a violation established before the machinery failed still counts
            if not c.violations:
                raise
        rc = c.finish()
    except CheckError as e:
        log("ERROR: %s" % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)
