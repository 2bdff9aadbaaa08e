#!/usr/bin/env python3
"""check.py Cxx            decide property Cxx on /repo's current tree
   check.py --setup        build the tools (done on demand by every check as well)
   check.py --replay FILE  run the failing case of a replay file again

The deciding step is Verus accepting every obligation generated from the functions that
tools/vextract extracts from /repo on this run.  probe/ is a bounded harness on the real
crate: it replays a failed obligation as a concrete failing input, and stands in, labelled
bounded, for functions the verifier cannot read.
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "out")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
VX = os.path.join(HERE, "tools/vextract/target/release/vextract")

sys.path.insert(0, HERE)
from plan import PLAN, UNITS  # noqa: E402

RLIMIT = "40"
RLIMIT2 = "160"

VERIF_MSG = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied",
    "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied",
    "possible bit shift", "loop must have a decreases", "unreachable", "could not prove termination",
    "cannot show", "split assertion failure", "cannot prove", "requires not satisfied", "ensures not satisfied",
    "failed this", "trait method specification not satisfied", "possible index", "bitvector", "nonlinear",
    "assertion fails", "unable to prove", "recommendation not met", "constructed value may fail",
)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


# ------------------------------------------------------------------ tools
def build_vextract():
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "tools/vextract"))
    if r.returncode != 0 or not os.path.exists(VX):
        die("vextract does not build: " + r.stderr[-2000:])


def probe_env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "1.71.1"
    e["VERIF_SEED"] = str(SEED)
    return e


def build_probe(prop):
    feat = prop.lower()
    r = sh(["cargo", "build", "--release", "--offline", "-q", "--features", feat], cwd=os.path.join(HERE, "probe"), env=probe_env())
    return r.returncode == 0, r.stderr[-4000:]


def run_probe(prop, only=None, seed=None):
    cmd = [os.path.join(HERE, "probe/target/release/probe"), prop]
    if TIER == "thorough":
        cmd.append("--thorough")
    if only:
        cmd += ["--only", only]
    env = probe_env()
    if seed is not None:
        env["VERIF_SEED"] = str(seed)
    try:
        r = sh(cmd, env=env, timeout=600 if TIER == "quick" else 5400)
    except subprocess.TimeoutExpired:
        return None, "probe timed out"
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            try:
                return json.loads(l), r.stderr[-2000:]
            except ValueError:
                pass
    return None, "probe ended with status %d: %s %s" % (r.returncode, r.stdout[-1000:], r.stderr[-2000:])


# ------------------------------------------------------------------ verus units
class Unit:
    def __init__(self, name, prop):
        self.name, self.prop = name, prop
        self.dir = os.path.join(OUT, prop)
        self.ext = []          # functions externalised on this run: (id, reason)
        self.flags = []        # extraction options of the variants that were needed
        self.variants = []     # which function was verified under which variant
        self.entries = []
        self.text = []
        self.fails = []        # {fn, kind, message, where, rendered}
        self.lost_unit = None
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.log = ""
        self.cmd = ""
        self.canary_bad = []
        self.canary_n = 0

    def extract(self, canary=False):
        os.makedirs(self.dir, exist_ok=True)
        suff = "_canary" if canary else ""
        self.rs = os.path.join(self.dir, self.name + suff + ".rs")
        mp = os.path.join(self.dir, self.name + suff + ".json")
        cmd = [VX, "--repo", REPO, "--template", os.path.join(HERE, "contracts", self.name + ".vrs"), "--out", self.rs, "--map", mp,
               "--baseline", os.path.join(HERE, "contracts", "baseline", self.name + ".tsv")]
        for e, _ in self.ext:
            cmd += ["--external", e]
        cmd += self.flags
        if canary:
            cmd.append("--canary")
        r = sh(cmd)
        if r.returncode != 0:
            self.lost_unit = "extraction failed: " + r.stderr[-500:]
            return False
        self.entries = json.load(open(mp))
        self.text = open(self.rs).read().split("\n")
        return True

    def owner(self, line):
        for e in self.entries:
            if e["kind"] == "fn" and e["start"] <= line <= e["end"]:
                return e
        return None

    def verus(self, rlimit, only=()):
        cmd = ["verus", "--crate-type=lib", self.rs, "--output-json", "--time", "--error-format=json", "--multiple-errors", "6", "--rlimit", rlimit, "--num-threads", "4"]
        cmd += UNITS[self.name].get("args", [])
        if only:
            cmd += ["--verify-root"] + [x for o in only for x in ("--verify-function", o)]
        else:
            self.cmd = " ".join(cmd)
        t = time.time()
        try:
            r = sh(cmd, cwd=self.dir, timeout=500)
        except subprocess.TimeoutExpired:
            return None, [], "timeout"
        self.wall += time.time() - t
        diags = []
        for l in r.stderr.splitlines():
            l = l.strip()
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        res = None
        try:
            res = json.loads(r.stdout)
        except ValueError:
            m = re.search(r"\{.*\}", r.stdout, re.S)
            if m:
                try:
                    res = json.loads(m.group(0))
                except ValueError:
                    pass
        return res, diags, r.stderr

    def place(self, d):
        """function owning a diagnostic, the line blamed and the clause text"""
        spans = d.get("spans", [])
        msg = d.get("message", "")
        prim = [s for s in spans if s.get("is_primary")]
        body = [s for s in spans if "end of the function body" in (s.get("label") or "") or "at this exit" in (s.get("label") or "")]
        order = (body + prim + spans) if "postcondition" in msg else (prim + body + spans)
        clause = ""
        for s in prim or spans:
            clause = " ".join(t["text"].strip() for t in s.get("text", [])[:3])
            break
        for s in order:
            e = self.owner(s["line_start"])
            if e:
                return e, s["line_start"], clause
        # children / expansions
        for s in spans:
            x = s.get("expansion")
            while x:
                e = self.owner(x["span"]["line_start"])
                if e:
                    return e, x["span"]["line_start"], clause
                x = x["span"].get("expansion")
        return None, (prim or spans or [{"line_start": 0}])[0]["line_start"], clause

    def run(self):
        for attempt in range(8):
            if not self.extract():
                return
            res, diags, err = self.verus(RLIMIT)
            if err == "timeout":
                self.lost_unit = "the verifier timed out"
                return
            diags = [d for d in diags if not d.get("message", "").startswith("aborting due to")]
            comp = [d for d in diags if d.get("code") or not self.is_verif(d)]
            vr = (res or {}).get("verification-results", {})
            if not comp:
                break
            rl = [d for d in comp if self.is_rlimit(d)]
            if rl and len(rl) == len(comp):
                break
            new = False
            for d in comp:
                if self.is_rlimit(d):
                    continue
                e, line, _ = self.place(d)
                if e and e["id"] not in [x for x, _ in self.ext] and e["status"] == "ok":
                    self.ext.append((e["id"], "not in the verifier's reach: " + d.get("message", "")[:300]))
                    new = True
            if not new:
                self.lost_unit = "the extracted text does not compile: " + "; ".join(d.get("message", "")[:200] for d in comp[:3])
                return
        else:
            self.lost_unit = "the extracted text does not compile"
            return
        if any(self.is_rlimit(d) for d in diags):
            res2, diags2, err2 = self.verus(RLIMIT2)
            if err2 != "timeout" and res2:
                res, err = res2, err2
                diags = [d for d in diags2 if not d.get("message", "").startswith("aborting due to")]
                vr = res.get("verification-results", {})
            for d in diags:
                if self.is_rlimit(d):
                    e, _, _ = self.place(d)
                    if e:
                        self.ext.append((e["id"], "solver resource limit"))
            diags = [d for d in diags if not self.is_rlimit(d)]
        self.log = err
        if not res:
            self.lost_unit = "no result from the verifier: " + err[-300:]
            return
        self.verified = vr.get("verified", 0)
        self.errors = vr.get("errors", 0)
        try:
            self.smt_ms = res["times-ms"]["smt"]["total"]
        except (KeyError, TypeError):
            self.smt_ms = 0
        if vr.get("encountered-error") and not diags and not vr.get("errors"):
            self.lost_unit = "the verifier stopped: " + err[-300:]
            return
        for d in diags:
            e, line, clause = self.place(d)
            self.fails.append({"fn": e["id"] if e else None, "file": e["file"] if e else None, "repo_line": e["line"] if e else None,
                               "message": d.get("message", ""), "clause": clause, "line": line, "rendered": d.get("rendered", "")})

    def salvage(self, deadline):
        """a changed function whose proof failed is tried again in other, equally strict, ways: loops that know what
        is known before them, and the names of the source instead of the names of the baseline"""
        if self.lost_unit or not self.fails:
            return
        changed = {e["id"]: e for e in self.entries if e["kind"] == "fn" and e["changed"]}
        for fn in sorted({f["fn"] for f in self.fails if f["fn"] in changed}):
            e = changed[fn]
            opts = []
            if e["loops"]:
                opts.append(("loops not isolated", ["--attr", fn + "=#[verifier::loop_isolation(false)]"]))
            if any(" read as " in x for x in e["inlined"]):
                opts.append(("names of the source", ["--keep-names", fn]))
            keep = (self.flags, self.rs, self.entries, self.text)
            for what, fl in opts:
                if time.time() > deadline:
                    break
                self.flags = keep[0] + fl
                ok = False
                if self.extract() and all(x["status"] == "ok" for x in self.entries if x["id"] == fn):
                    res, diags, err = self.verus(RLIMIT2, only=[fn.rsplit("::", 1)[-1]])
                    vr = (res or {}).get("verification-results", {})
                    bad = [d for d in diags if not d.get("message", "").startswith("aborting due to")]
                    other = [d for d in bad if not self.is_verif(d) or (self.place(d)[0] or {"id": fn})["id"] == fn]
                    ok = vr.get("verified", 0) > 0 and not other
                if ok:
                    self.fails = [f for f in self.fails if f["fn"] != fn]
                    self.variants.append("%s: %s" % (fn, what))
                    self.errors -= 1
                    self.verified += 1
                    break
                self.flags, self.rs, self.entries, self.text = keep
                self.extract()

    @staticmethod
    def is_rlimit(d):
        m = d.get("message", "").lower()
        return "resource limit" in m or "rlimit" in m or "timed out" in m

    @staticmethod
    def is_verif(d):
        m = d.get("message", "").lower()
        return any(k in m for k in VERIF_MSG)

    def canary(self):
        """a false assertion at the end of every verified body must fail, or the body was verified vacuously"""
        if self.lost_unit:
            return
        keep = (self.rs, self.entries, self.text)
        if not self.extract(canary=True):
            self.lost_unit = None
            self.rs, self.entries, self.text = keep
            return
        res, diags, err = self.verus(RLIMIT)
        want = [e["id"] for e in self.entries if e["kind"] == "fn" and e.get("canary")]
        hit = set()
        for d in diags:
            e, _, _ = self.place(d)
            if e:
                hit.add(e["id"])
        if res is not None and all(self.is_verif(d) or "aborting due to" in d.get("message", "") for d in diags):
            self.canary_n = len(want)
            self.canary_bad = [w for w in want if w not in hit]
        self.rs, self.entries, self.text = keep

    # name based call graph inside the unit
    def closure(self, roots):
        fns = {e["id"]: e for e in self.entries if e["kind"] == "fn"}
        short = {}
        for i in fns:
            short.setdefault(i.rsplit("::", 1)[-1], []).append(i)
        todo = [i for i in fns if roots == "*" or i in roots]
        seen = set(todo)
        while todo:
            i = todo.pop()
            e = fns[i]
            body = "\n".join(self.text[max(0, e["start"] - 1):e["end"]])
            for w in set(re.findall(r"\b([a-z_][a-zA-Z0-9_]*)\s*(?:::\s*<[^;{}]*?>)?\s*\(", body)):
                for j in short.get(w, []):
                    if j not in seen:
                        seen.add(j)
                        todo.append(j)
        return seen


def trusted_scan(unit):
    """assumed contracts in the unit: external_body functions, assume, axioms of user supplied traits"""
    out = []
    t = unit.text
    for i, l in enumerate(t):
        if "external_body" in l or "external_fn_specification" in l or "assume_specification" in l:
            for k in range(i, min(i + 6, len(t))):
                m = re.search(r"\bfn\s+(\w+)|struct\s+(\w+)|assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]*)\]", t[k])
                if m:
                    e = unit.owner(k + 1)
                    nm = (e["id"] if e else None) or m.group(1) or m.group(2) or m.group(3)
                    if e and e["status"].startswith("proved in "):
                        break
                    out.append("%s: assumed contract of %s" % (unit.name, nm.strip()))
                    break
        if re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            out.append("%s: %s" % (unit.name, l.strip()[:100]))
    return sorted(set(out))


# ------------------------------------------------------------------ main
def known(prop):
    p = os.path.join(HERE, "known-findings.txt")
    return [l.strip() for l in open(p) if l.strip() and not l.startswith("#")] if os.path.exists(p) else []


def check(prop):
    t0 = time.time()
    plan = PLAN[prop]
    shutil.rmtree(os.path.join(OUT, prop), ignore_errors=True)
    os.makedirs(os.path.join(OUT, prop), exist_ok=True)
    pb = {}

    def pbuild():
        pb["ok"], pb["err"] = build_probe(prop)
        if pb["ok"]:
            pb["res"], pb["log"] = run_probe(prop)

    th = threading.Thread(target=pbuild)
    th.start()
    build_vextract()
    units = [Unit(u, prop) for u in plan["units"]]
    sem = threading.Semaphore(3)

    def work(u):
        with sem:
            u.run()
            u.salvage(t0 + 400)
            if not u.lost_unit and not u.fails:
                u.canary()

    ths = [threading.Thread(target=work, args=(u,)) for u in units]
    for x in ths:
        x.start()
    kani = None
    if plan.get("kani"):
        from kanirun import run_kani
        kani = run_kani(HERE, REPO, OUT, plan["kani"], TIER)
    for x in ths:
        x.join()
    th.join()

    # ---- the proof side
    fails, lost, proved, ignored, vacuous = [], [], [], [], []
    obligations = discharged = 0
    trusted, cmds, rules, changed = [], [], {}, []
    solver_s = 0.0
    readback = []
    for u in units:
        if u.lost_unit:
            lost.append("unit %s: %s" % (u.name, u.lost_unit))
            continue
        rel = u.closure(plan["units"][u.name])
        fns = {e["id"]: e for e in u.entries if e["kind"] == "fn"}
        ext = dict(u.ext)
        for e in u.entries:
            if e["kind"] == "item" and e["status"] == "lost":
                lost.append("%s: %s" % (e["id"], e["reason"]))
        for i in sorted(rel):
            e = fns[i]
            if i in ext:
                lost.append("%s (%s:%d): %s" % (i, e["file"], e["line"], ext[i]))
            elif e["status"] == "lost":
                lost.append("%s (%s): %s" % (i, e["file"], e["reason"]))
            elif e["status"] == "trusted" or e["status"].startswith("proved in "):
                pass
            elif not any(f["fn"] == i for f in u.fails):
                proved.append("%s (%s:%d)" % (i, e["file"], e["line"]))
            for r in e["rules"]:
                rules[r] = rules.get(r, 0) + 1
            if e["changed"]:
                changed.append(i)
                readback += ["%s: %s" % (i, x) for x in e["inlined"]]
        for f in u.fails:
            if f["fn"] is None or f["fn"] in rel:
                fails.append(dict(f, unit=u.name))
            else:
                ignored.append("%s: %s" % (f["fn"], f["message"]))
        vacuous += [c for c in u.canary_bad if c in rel and c not in UNITS[u.name].get("novac", [])]
        obligations += u.verified + u.errors
        discharged += u.verified
        readback += u.variants
        trusted += trusted_scan(u)
        cmds.append(u.cmd)
        solver_s += u.smt_ms / 1000.0
    kfails = []
    if kani is not None:
        obligations += kani["checks"]
        discharged += kani["passed"]
        cmds.append(kani["cmd"])
        trusted += kani["trusted"]
        solver_s += kani["seconds"]
        kfails = kani["failures"]
        proved += kani["proved"]
        lost += kani["lost"]

    # ---- the bounded side
    probe = pb.get("res")
    perr = None
    if not pb.get("ok"):
        perr = "the probe does not build against /repo: " + pb.get("err", "")
    elif probe is None:
        perr = pb.get("log")
    pfails = probe["failures"] if probe else []

    # ---- verdict
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    violations = []
    obl = [{"unit": f["unit"], "function": f["fn"], "file": f["file"], "line": f["repo_line"], "obligation": f["message"],
            "clause": f["clause"], "verifier_output": f["rendered"]} for f in fails] + kfails
    if pfails:
        for f in pfails[:3]:
            violations.append(({"property": prop, "case": f["case"], "seed": SEED, "tier": TIER, "what": f["what"], "failed_obligations": obl,
                                "replay": "python3 check.py --replay <this file>"}, ""))
    elif obl:
        concrete = [k for k in kfails if k.get("concrete")]
        violations.append(({"property": prop, "failed_obligations": obl, "verifier": cmds,
                            "note": "the verifier rejects the named obligation; no failing input was found by the bounded search"},
                           "" if concrete else " no-failing-input-found"))
    wall = time.time() - t0
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": " && ".join(cmds) or "none",
        "trusted_base": sorted(set(trusted)) + plan.get("trusted", []),
        "functions_under_contract": sorted(proved),
        "bounded_stand_ins": sorted(lost) + plan.get("bounded", []),
        "solver_s": round(solver_s, 2),
        "back_end": "Verus (Z3)" + (" and Kani (CBMC)" if kani is not None else ""),
        "extraction_rules_used": rules,
        "functions_changed_since_baseline": changed,
        "read_back": readback,
        "vacuity_canaries": sum(u.canary_n for u in units), "vacuous": vacuous,
        "failed_outside_this_property": ignored,
        "evaluations": (probe or {}).get("evaluations", 0),
        "distinct_nontrivial": (probe or {}).get("distinct_nontrivial", 0),
        "rule": "bounded refutation of the same property on the built crate: " + plan.get("rule", "enumerated and seeded cases; a case is non-trivial when it reached the comparison with the independent model"),
        "samples": (probe or {}).get("samples", []),
    }
    if vacuous:
        lost.append("vacuous bodies: " + ", ".join(vacuous))
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for l in known(prop):
        if l.startswith("known: property=%s " % prop):
            print("KNOWN-FINDING: " + l[len("known: "):])
    print("%s: %d obligations, %d discharged, %d functions under contract, %d cases; %.0f s" % (prop, obligations, discharged, len(proved), cov["evaluations"], wall))
    for l in lost:
        print("bounded: " + l)
    for i in ignored:
        print("note (not in this property's call graph): " + i)
    if violations:
        for v, tail in violations:
            h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
            p = os.path.join(HERE, "replay", "%s-%s.json" % (prop, h))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            if "what" in v:
                print("failing input: %s: %s" % (v["case"], v["what"]))
            for o in v["failed_obligations"][:6]:
                print("failed obligation: %s in %s [%s]" % (o["obligation"], o["function"], o["clause"]))
            print("VIOLATION property=%s replay=%s%s" % (prop, p, tail))
        sys.exit(1)
    if perr:
        die(perr)
    if vacuous:
        die("vacuous: " + ", ".join(vacuous))
    if not proved:
        # nothing could be read by the verifier: the bounded stand-in decided alone
        print("bounded: no function of this property could be verified on this tree")
    sys.exit(0)


def replay(path):
    v = json.load(open(path))
    if "case" not in v:
        for o in v["failed_obligations"]:
            print("%s in %s\n%s" % (o["obligation"], o["function"], o.get("verifier_output", "")))
        print("no failing input recorded: run check.py %s again" % v["property"])
        sys.exit(1)
    global TIER
    TIER = v.get("tier", "quick")
    ok, err = build_probe(v["property"])
    if not ok:
        die(err)
    r, log = run_probe(v["property"], only=v["case"], seed=v["seed"])
    print(json.dumps(r, indent=1) if r else log)
    sys.exit(1 if r and r["failures"] else 0)


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build_vextract()
        r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "probe"), env=probe_env())
        print("setup done" if r.returncode == 0 else r.stderr[-2000:])
        sys.exit(0)
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        die("usage: check.py Cxx | --setup | --replay FILE")
    check(sys.argv[1])
