#!/usr/bin/env python3
"""Decides one property: python3 check.py C01

Layers (see DESIGN.md):
  Kani   contracts and proof obligations on /repo's compiled code (CBMC decides them)
  Verus  unbounded obligations on functions extracted from /repo's source on this run
An obligation a verifier rejects is replayed, or a failing input for it is searched, on the real code.
"""
import json, os, re, shutil, subprocess, sys, time, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, TRUSTED, LEVELS, NOTES
import extract

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
BUDGET = 840 if TIER == "quick" else 3600

def left():
    return BUDGET - (time.time() - T0)

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def run(cmd, cwd, env=None, timeout=None, inp=None):
    """Runs in its own process group so that a time-out ends the solvers too."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.PIPE if inp else subprocess.DEVNULL, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(inp, timeout=max(5, timeout or 600))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out or ""

class Build:
    """Scratch build folder of this run, removed at its end."""
    def __init__(self):
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=base)
    def path(self, *a):
        return os.path.join(self.dir, *a)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def rustflags(group):
    f = "--cap-lints allow"
    for h in group.get("hooks", []):
        f += ' --cfg lcms2_verif="%s"' % h
    if "contracts" in group["features"]:
        f += " --cfg lcms2_contracts"
    return f

UNDECIDED = re.compile(r"unwinding assertion|recursion unwinding|not currently supported|unsupported|"
                       r"is not supported|reachability check|Function with missing definition|"
                       r"Unable to determine|call to foreign|missing function|unsupported feature", re.I)

KANI_FLAGS = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options"]

def kani(build, group, timeout, harness=None, playback=False, only=None):
    """-> (ok_build, {harness: dict}, output)"""
    env = {}
    if group.get("curves"):
        env["LCMS2_CURVES"] = build.path("curves.rs")
        try:
            extract.curves(env["LCMS2_CURVES"])
        except Exception as ex:
            return False, {}, "extraction: %r" % ex
    cmd = ["cargo", "kani", "--lib", "--features", ",".join(group["features"])] + KANI_FLAGS + group.get("flags", [])
    cmd += ["--harness-timeout", "%ds" % max(10, int(min(timeout, group.get("harness_timeout", 300))))]
    if harness:
        cmd += ["--harness", harness, "--exact"]
    if playback:
        cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
    else:
        cmd += ["--output-format", "terse", "-j", str(group.get("jobs", 8))]
    if group.get("cbmc"):
        cmd += ["--cbmc-args"] + group["cbmc"]
    rc, out = run(cmd, os.path.join(VERIF, group.get("crate", "harness")),
                  dict(env, RUSTFLAGS=rustflags(group), CARGO_TARGET_DIR=build.path("kani"), CARGO_NET_OFFLINE="true",
                       CARGO_TERM_COLOR="never"), timeout)
    res = {}
    cur = {}
    thread = "0"
    for line in out.splitlines():
        m = re.match(r"Thread (\d+): ?(.*)", line)
        if m:
            thread, rest = m.group(1), m.group(2)
        else:
            rest = line
        m = re.match(r"Checking harness (\S+?)\.\.\.", rest)
        if m:
            cur[thread] = m.group(1)
            res[m.group(1)] = dict(status="undecided", checks=0, failed=[], covers=(0, 0), time=0.0, why="no verdict")
            continue
        h = res.get(cur.get(thread))
        if h is None:
            continue
        m = re.search(r"\*\* (\d+) of (\d+) failed", rest)
        if m:
            h["checks"] = int(m.group(2))
            h["nfailed"] = int(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", rest)
        if m:
            h["covers"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", rest)
        if m:
            h["failed"].append(m.group(1).strip())
        if "VERIFICATION:- SUCCESSFUL" in rest:
            h["status"] = "ok"
            h["why"] = ""
        if "VERIFICATION:- FAILED" in rest:
            h["status"] = "failed"
            h["why"] = ""
        if "CBMC timed out" in rest or "timed out" in rest.lower():
            h["status"], h["why"] = "undecided", "solver time-out"
        if "CBMC failed" in rest or "out of memory" in rest.lower():
            h["status"], h["why"] = "undecided", "solver failure"
        m = re.match(r"Verification Time: ([\d.]+)s", rest)
        if m:
            h["time"] = float(m.group(1))
    for h in res.values():
        if h["status"] == "failed":
            real = [f for f in h["failed"] if not UNDECIDED.search(f)]
            if not real:
                h["status"] = "undecided"
                h["why"] = h["why"] or ("; ".join(h["failed"][:3]) or "no failed obligation named")
            elif any("unwinding assertion" in f for f in h["failed"]):
                h["unwind"] = True
        if h["status"] == "ok" and h["covers"][0] < h["covers"][1]:
            h["status"], h["why"] = "undecided", "vacuous: a point that must be reachable is not"
    return bool(res), res, out

def playback_bytes(out):
    """Concrete playback tests in Kani's output -> hex strings."""
    r = []
    for t in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*kani::concrete_playback_run", out, re.S):
        b = []
        for v in re.findall(r"vec!\[([^\]]*)\]", t):
            b += [int(x) for x in v.replace("\n", " ").split(",") if x.strip()]
        h = bytes(b).hex()
        if h not in r:
            r.append(h)
    return r

class Native:
    """The same obligations, executed on the real code."""
    def __init__(self, build):
        self.build = build
        self.bins = {}
    def exe(self, group):
        feats = [f for f in group["features"] if f != "contracts"]
        key = (tuple(feats), tuple(group.get("hooks", [])), group.get("crate", "harness"))
        if key not in self.bins:
            tgt = self.build.path("native%d" % len(self.bins))
            g = dict(group, features=feats)
            rc, out = run(["cargo", "build", "--offline", "--bin", "native", "--features", ",".join(feats)],
                          os.path.join(VERIF, key[2]),
                          {"RUSTFLAGS": rustflags(g), "CARGO_TARGET_DIR": tgt, "CARGO_TERM_COLOR": "never"}, 300)
            self.bins[key] = (os.path.join(tgt, "debug", "native"), None) if rc == 0 else (None, out)
        return self.bins[key]
    def scratch(self):
        d = self.build.path("scratch")
        os.makedirs(d, exist_ok=True)
        return d
    def replay(self, group, name, hexb):
        exe, err = self.exe(group)
        if not exe:
            return None
        rc, out = run([exe, "replay", name, hexb], self.scratch(), timeout=20)
        if rc == 3:
            return out.strip()
        if rc == -9:
            return "FAILS %s : does not terminate within 20 s" % name
        if rc < 0 or rc == 134 or rc == 139:
            return "FAILS %s : the process died with status %d" % (name, rc)
        return None
    def search(self, group, secs, name=None, seed=SEED):
        """-> (hex, message) or (None, summary)"""
        exe, err = self.exe(group)
        if not exe:
            return None, "native build failed: " + (err or "")[-400:]
        cmds = [[exe, "search", str(seed + k * 7919), "1000000000", str(secs)] + ([name] if name else []) for k in range(4)]
        scratch = self.scratch()
        with ThreadPoolExecutor(4) as pool:
            outs = list(pool.map(lambda k: run(cmds[k], scratch, timeout=secs * 3 + 30), range(4)))
        for rc, out in outs:
            m = re.search(r"FAILS (\S+) (\S+) : (.*)", out)
            if rc == 3 and m:
                return (m.group(1), "" if m.group(2) == "-" else m.group(2)), m.group(3)
        if any(rc == -9 for rc, out in outs):
            return None, "a search did not end"
        t = [re.search(r"SEARCHED (\d+) inputs, (\d+) in the domain", out) for rc, out in outs]
        if all(t):
            return None, "SEARCHED %d inputs, %d in the domain" % tuple(sum(int(x.group(i)) for x in t) for i in (1, 2))
        return None, "; ".join(out.strip().splitlines()[-1] if out.strip() else "no output" for rc, out in outs)

def write_replay(pid, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, re.sub(r"\W+", "_", data["obligation"])[:80]))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p

def load_known(pid):
    r = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) obligation=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return r

def main():
    pid = sys.argv[1]
    conf = PROPS[pid]
    build = Build()
    native = Native(build)
    violations, undecided, assumed = [], [], []
    obligations = discharged = 0
    functions = {}
    backends, notes = {}, []
    bounded, bounded_names = [0, 0], []
    searched = []
    known = load_known(pid)
    try:
        # -- the Verus layer runs next to the Kani layer
        verus_result = {}
        vt = None
        if conf.get("verus"):
            import verus as V
            def go():
                try:
                    verus_result.update(V.check(conf["verus"], build.path("verus"), TIER, max(60, left() - 60)))
                except Exception as ex:  # a bug of the machinery must not look like a verdict
                    verus_result.update(dict(error=repr(ex), units=[]))
            vt = threading.Thread(target=go)
            vt.start()

        todo = []   # (group, harness, info, output)
        for g0 in conf["groups"]:
            if g0.get("tier") and g0["tier"] != TIER:
                continue
            g = dict(g0)
            if TIER == "thorough" and "thorough" in g:
                g.update(g["thorough"])
            if g.get("native"):
                f, msg = native.search(g, g["native"])
                searched.append(dict(group=g["features"], result=msg))
                log("native runs:", msg)
                if f:
                    violations.append(dict(obligation=f[0], input=f[1], message=msg, group=g, verifier=""))
                continue
            log("kani", g["features"], g.get("hooks", []))
            ok, res, out = kani(build, g, max(30, min(left() - 90, g.get("timeout", 700))))
            if not ok and "contracts" in g["features"]:
                # the contract annotations lost their function: decide the obligations without them
                notes.append("contract mode did not build; obligations decided on inlined code")
                g = dict(g, features=[f for f in g["features"] if f != "contracts"])
                ok, res, out = kani(build, g, max(30, min(left() - 90, g.get("timeout", 700))))
            if not ok:
                log("kani gave no result for", g["features"])
                print(out[-3000:])
                undecided.append(dict(group=g["features"], why="the obligations did not build or run"))
                todo.append((g, None, None, out))
                continue
            # modular mode: a rejected caller or contract is decided again with all bodies inlined
            bad = [h for h, r in res.items() if r["status"] != "ok"]
            if bad and "contracts" in g["features"]:
                g2 = dict(g, features=[f for f in g["features"] if f != "contracts"])
                log("contract mode rejects", bad, "- deciding on inlined code")
                ok2, res2, out2 = kani(build, g2, max(30, min(left() - 90, g.get("timeout", 700))))
                if ok2:
                    notes.append("rejected in contract mode: " + ", ".join(bad))
                    for h in list(res):
                        if h in res2:
                            res[h] = res2[h]
                        elif res[h]["status"] != "ok":
                            # a contract of a single function: not the property itself
                            undecided.append(dict(obligation=h, why="contract no longer holds: " + "; ".join(res[h]["failed"][:2])))
                            res.pop(h)
                    g = g2
            for h, r in sorted(res.items()):
                n = max(1, r["checks"])
                name = h.split("::")[-1]
                cfgname = "+".join(f for f in g["features"])
                isb = bool(conf.get("bounded_re") and re.search(conf["bounded_re"], name))
                if isb:
                    bounded[0] += n
                    bounded[1] += n if r["status"] == "ok" else 0
                    bounded_names.append(h)
                else:
                    obligations += n
                b = backends.setdefault("Kani/CBMC, bounded" if isb else "Kani/CBMC", dict(obligations=0, discharged=0, harnesses=0, solver_s=0.0))
                b["harnesses"] += 1
                b["obligations"] += n
                b["solver_s"] = round(b["solver_s"] + r["time"], 2)
                functions.setdefault(cfgname, []).append(dict(obligation=h, checks=n, status=r["status"], s=round(r["time"], 2)))
                if r["status"] == "ok":
                    discharged += 0 if isb else n
                    b["discharged"] += n
                elif r["status"] == "failed":
                    todo.append((g, h, r, out))
                else:
                    log("undecided:", h, r["why"])
                    undecided.append(dict(obligation=h, why=r["why"]))
                    todo.append((g, h, r, out))

        # -- thorough: the obligations also run on the compiled code, for as long as it is worth
        if TIER == "thorough":
            for g in conf["groups"]:
                f, msg = native.search(g, 240)
                searched.append(dict(group=g["features"], result=msg))
                log("native runs:", msg)
                if f:
                    violations.append(dict(obligation=f[0], input=f[1], message=msg, group=g, verifier=""))

        # -- failed or undecided Kani obligations: replay or search on the real code
        deadline_share = max(10, (left() - 60) / max(1, len(todo)))
        for g, h, r, out in todo:
            if violations and left() < 200:
                break
            if h is None:
                f, msg = native.search(g, min(60, deadline_share))
                searched.append(dict(group=g["features"], result=msg))
                log("native search:", msg)
                if f:
                    violations.append(dict(obligation=f[0], input=f[1], message=msg, group=g, verifier=out[-4000:]))
                continue
            name = h.split("::")[-1]
            log("obligation rejected:" if r["status"] == "failed" else "obligation undecided:", h, r["failed"][:4])
            found = None
            if r["status"] == "failed":
                if any(k[0] == name for k in known):
                    continue
                ok, res2, out2 = kani(build, g, max(30, min(left() - 60, 200)), harness=h, playback=True)
                for hx in playback_bytes(out2):
                    msg = native.replay(g, name, hx)
                    if msg:
                        found = (hx, msg)
                        break
                if not found:
                    f, msg = native.search(g, min(40, deadline_share), name)
                    searched.append(dict(obligation=name, result=msg))
                    if f:
                        found = (f[1], msg)
                violations.append(dict(obligation=name, input=found[0] if found else None,
                                       message=found[1] if found else "; ".join(r["failed"][:5]), group=g,
                                       verifier=("\n".join("Failed Checks: " + x for x in r["failed"]))))
            else:
                f, msg = native.search(g, min(40, deadline_share), name)
                searched.append(dict(obligation=name, result=msg))
                log("native search:", msg)
                if f:
                    violations.append(dict(obligation=name, input=f[1], message=msg, group=g, verifier=r["why"]))
            if violations and violations[-1]["input"] is not None:
                break   # one reproduced violation decides the check

        # -- Verus verdicts
        if vt:
            vt.join(max(5, left() - 30))
            if vt.is_alive():
                verus_result = dict(units=[], error="no verdict in time")
            if verus_result.get("error"):
                undecided.append(dict(obligation="verus", why=verus_result["error"]))
                log("verus:", verus_result["error"])
            for u in verus_result.get("units", []):
                b = backends.setdefault("Verus/Z3", dict(obligations=0, discharged=0, functions=0, solver_s=0.0))
                b["obligations"] += u["obligations"]
                b["discharged"] += u["discharged"]
                b["functions"] += len(u["functions"])
                b["solver_s"] = round(b["solver_s"] + u["time"], 2)
                obligations += u["obligations"]
                discharged += u["discharged"]
                functions.setdefault("verus:" + u["name"], []).extend(u["functions"])
                assumed += u["assumed"]
                log("verus", u["name"], u["status"], "%d/%d" % (u["discharged"], u["obligations"]))
                if u["status"] == "undecided":
                    undecided.append(dict(obligation=u["name"], why=u["why"]))
                    log("verus undecided:", u["why"][:600])
                if u["status"] != "ok" and not violations:
                    # look for an input on which the real code breaks the rejected obligation
                    for g in conf["groups"]:
                        if g.get("tier") and g["tier"] != TIER:
                            continue
                        f, msg = native.search(g, min(45, max(10, left() - 60)))
                        searched.append(dict(obligation=u["name"], result=msg))
                        log("native search:", msg)
                        if f:
                            violations.append(dict(obligation=f[0], input=f[1], message=msg, group=g, verifier=u["output"][-4000:]))
                            break
                    if not violations and u["status"] == "failed":
                        violations.append(dict(obligation=u["failed"][0], input=None, message=u["why"], group=conf["groups"][0],
                                               verifier=u["output"][-6000:]))

        level = LEVELS.get(pid, "proof")
        cov = dict(obligations=obligations, discharged=discharged,
                   checker_cmd="python3 check.py %s (cargo kani %s%s)" % (pid, " ".join(KANI_FLAGS), "; verus" if vt else ""),
                   trusted_base=TRUSTED["all"] + sorted(set(assumed)) + conf.get("trusted", []),
                   backends=backends, functions=functions,
                   bounded=dict(bounds=conf.get("bounded", []), obligations=bounded[0], discharged=bounded[1], harnesses=bounded_names,
                                note="decided up to the bounds given; not counted among the obligations discharged"),
                   explanation=NOTES[pid], undecided=undecided, notes=notes, native_search=searched)
        ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov,
                  assumptions=conf.get("assumptions", []) + sorted(set(assumed)),
                  wall_s=round(time.time() - T0, 1), violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

        for o, what in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        if obligations + bounded[0] == 0 and not violations and not searched:
            print("no obligation could be generated")
            return 2
        if not violations and any(u.get("group") for u in undecided) and not any("in the domain" in s["result"] for s in searched):
            print("undecided: nothing could be explored")
            return 2
        log("obligations %d discharged %d bounded %d/%d undecided %d violations %d" % (obligations, discharged, bounded[1], bounded[0], len(undecided), len(violations)))
        if violations:
            violations.sort(key=lambda v: v["input"] is None)
            v = violations[0]
            g = v["group"]
            feats = ",".join(f for f in g["features"] if f != "contracts")
            p = write_replay(pid, dict(
                property=pid, obligation=v["obligation"], input_hex=v["input"], message=v["message"],
                reproduce=None if v["input"] is None else
                "cd /verif/%s && RUSTFLAGS='%s' cargo run --offline --bin native --features %s -- replay %s %s" % (
                    g.get("crate", "harness"), rustflags(g), feats, v["obligation"], v["input"]),
                verifier_output=v["verifier"]))
            print("obligation %s: %s" % (v["obligation"], v["message"]))
            print("VIOLATION property=%s replay=%s%s" % (pid, p, "" if v["input"] is not None else " no-failing-input-found"))
            return 1
        return 0
    finally:
        build.close()

if __name__ == "__main__":
    sys.exit(main())
