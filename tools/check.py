#!/usr/bin/env python3
"""check.py PROPERTY: discharges the obligations of a property against /repo's working tree.

Exit 0: held. Exit 1: violated, with a VIOLATION line. Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import table  # noqa: E402

BUILD = os.path.join(VERIF, ".build")
EXTRACT = os.path.join(BUILD, "extract")
EVID = os.path.join(VERIF, "evidence")
VC = os.path.join(VERIF, "vc")
WALL = 780          # seconds for the whole check
T0 = time.time()
NCPU = os.cpu_count() or 4

TRUSTED = [
    "Kani 0.68.0 and its translation of MIR to CBMC's goto programs, with its models of the allocator and of memory intrinsics",
    "CBMC 6.11 (symbolic execution, memory model) and its SAT back end (CaDiCaL)",
    "rustc and the Rust standard library as compiled by Kani (little-endian, 64-bit)",
    "the executable X.690 specification in /verif/vc/src/spec.rs and the statements of the obligations in /verif/vc/src",
    "/verif/tools/check.py, which reads the verifier's results",
]


def left():
    return WALL - (time.time() - T0)


def die(msg):
    print(f"ERROR {msg}")
    sys.exit(2)


def run(cmd, timeout, env=None, cwd=VERIF, mem=None, out=None):
    """Runs in a process group of its own; kills the group at the timeout."""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, preexec_fn=pre, text=True, errors="replace",
                         stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, o or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o or ""


def source(path):
    try:
        return open(os.path.join(REPO, path)).read()
    except OSError:
        return ""


def methods(path, type_):
    """Names of the inherent methods of a type in a source file."""
    names = []
    for m in re.finditer(rf"^impl {type_} \{{\n(.*?)^\}}", source(path), re.S | re.M):
        names += re.findall(r"^    (?:pub(?:\([a-z]+\))? )?(?:const )?(?:unsafe )?fn (\w+)", m.group(1), re.M)
    return names


def extract(path, text, name, around):
    """Writes the text of a function of the current source to a file; says why if it cannot."""
    found = re.findall(text, source(path), re.S | re.M)
    if len(found) != 1:
        return [f"{path}: {text}"]
    os.makedirs(EXTRACT, exist_ok=True)
    with open(os.path.join(EXTRACT, name), "w") as f:
        f.write(around[0] + found[0] + around[1])
    return []


def anchors():
    """cfg flags whose anchors are all found in the current source."""
    on, lost = [], {}
    for cfg, want in table.ANCHORS.items():
        missing = [f"{f}: {sig}" for f, sig in want if not re.search(sig, source(f))]
        missing += [f"{f}: impl {t} has {', '.join(sorted(set(methods(f, t)) ^ set(names)))} more or less than expected"
                    for f, t, names in table.METHODS.get(cfg, []) if set(methods(f, t)) != set(names)]
        if cfg in table.EXTRACTS and not missing:
            missing = extract(*table.EXTRACTS[cfg])
        if missing:
            lost[cfg] = missing
        else:
            on.append(cfg)
    return on, lost


def environment(cfgs):
    e = dict(os.environ)
    e["RUSTFLAGS"] = " ".join(["-Ainvalid_reference_casting"] + [f"--cfg {c}" for c in cfgs])
    e["CARGO_NET_OFFLINE"] = "true"
    e["VC_EXTRACT"] = EXTRACT
    e.pop("CARGO_TARGET_DIR", None)
    return e


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.spec = table.CHECKS[prop]
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.features = self.spec.get("features", [])
        self.cfgs, self.lost = anchors()
        self.env = environment(self.cfgs)
        self.native_dir = os.path.join(BUILD, "native" + "-".join([""] + self.features))
        self.kani_dir = os.path.join(BUILD, "kani" + "-".join([""] + self.features))
        self.vc = os.path.join(self.native_dir, "native", "vc")
        self.notes = []
        self.violations = []      # (harness, file, reproduced)

    # ---------------------------------------------------------------- native
    def build_native(self):
        cmd = ["cargo", "build", "--offline", "--target-dir", self.native_dir, "--profile", "native", "--bin", "vc"]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        rc, o = run(cmd, min(400, left()), env=environment(self.cfgs), cwd=VC)
        taken = [c for c in self.cfgs if c in table.EXTRACTS]
        if rc and taken:
            # perhaps because of text that does not stand alone
            for cfg in taken:
                self.lost[cfg] = ["the text taken from the source does not stand alone"]
            self.cfgs = [c for c in self.cfgs if c not in taken]
            self.env = environment(self.cfgs)
            rc, o = run(cmd, min(400, left()), env=self.env, cwd=VC)
        if rc != 0:
            print(o[-4000:])
            die("the native build failed")
        rc, o = run([self.vc, "list"], 60)
        if rc != 0:
            die("cannot list the obligations")
        self.known = [l.split()[1] for l in o.splitlines() if l.startswith("obligation ")]
        self.needs = {l.split()[1]: l.split()[2:] for l in o.splitlines() if l.startswith("obligation ")}
        self.sweepable = [l.split()[1] for l in o.splitlines() if l.startswith("sweep ")]

    def expand(self, names):
        r = []
        for n in names:
            hit = [k for k in self.known if (k.startswith(n) if n.endswith("::") else k == n)]
            if not hit:
                lost = [c for c, names in table.NEEDS.items() if n in names and c in self.lost]
                if lost:
                    self.notes.append(f"{n} left out, anchor lost ({'; '.join(self.lost[lost[0]])})")
                    continue
                die(f"no obligation {n}")
            r += [h for h in hit if h not in r]
        return r

    def without(self, h):
        """Why an obligation cannot be put to the verifier on the current source."""
        for cfg, why in self.lost.items():
            names = table.NEEDS.get(cfg, [])
            if cfg in self.needs[h] or any(h.startswith(n) if n.endswith("::") else h == n for n in names):
                return f"anchor lost ({'; '.join(why)})"
        return None

    def vc_run(self, args, timeout):
        rc, o = run([self.vc] + args, timeout, env=self.env, mem=12 << 30)
        if rc is None:
            return "undecided", "no answer in time"
        if rc == 1:
            m = re.search(r"^FAIL .*$", o, re.M)
            return "fail", m.group(0) if m else o[-500:]
        if rc == 0:
            return "held", o.strip()
        if rc == 3:
            return "rejected", o.strip()
        if rc < 0:
            return "crash", f"killed by signal {-rc}: {o[-300:]}"
        return "undecided", o[-500:]

    def native_search(self, harness, ms):
        st, o = self.vc_run(["search", harness, str(self.seed), str(ms)], ms / 1000 + 60)
        return st, o

    # ---------------------------------------------------------------- Kani
    def kani(self, harnesses, timeout, extra=(), tag="main", harness_timeout=420):
        js = os.path.join(self.kani_dir, f"{tag}.json")
        log = os.path.join(self.kani_dir, f"{tag}.log")
        os.makedirs(self.kani_dir, exist_ok=True)
        for f in (js, log):
            if os.path.exists(f):
                os.remove(f)
        cmd = ["cargo", "kani", "--target-dir", self.kani_dir, "-Z", "unstable-options", "-Z", "stubbing",
               "-j", str(NCPU), "--output-format", "terse", "--export-json", js,
               "--harness-timeout", f"{int(harness_timeout)}s"]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        cmd += list(extra)
        for h in harnesses:
            cmd += ["--harness", h]
        cmd += ["--exact"]
        self.checker_cmd = " ".join(cmd[:cmd.index("--harness")]) + " --exact --harness ..."
        with open(log, "w") as f:
            rc, _ = run(cmd, timeout, env=self.env, cwd=VC, mem=16 << 30, out=f)
        text = open(log, errors="replace").read()
        data = None
        if os.path.exists(js):
            try:
                data = json.load(open(js))
            except ValueError:
                data = None
        return rc, text, data

    def complete(self, data, results):
        """Kani takes an interrupted answer of CBMC for a complete one: count the properties, and
        where some are missing have CBMC answer again without traces."""
        cbmc = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*/bin/cbmc")))
        cbmc = cbmc[-1] if cbmc else "cbmc"
        flags = [cbmc] + ("--no-malloc-may-fail --no-undefined-shift-check --no-signed-overflow-check --nan-check "
                          "--no-self-loops-to-assumptions --no-pointer-primitive-check --object-bits 16").split()
        silent = ("reachability_check", "sanity_check", "pointer arithmetic")

        def one(h):
            name, f = h["pretty_name"], re.sub(r"\.symtab\.out$", ".out", h["goto_file"])
            r = results.get(name)
            if r is None or not r["checks"] or any(c["status"] in ("Failure", "Error") for c in r["checks"]):
                return
            rc, o = run(flags + ["--show-properties", "--json-ui", f], 60)
            try:
                ps = [p for x in json.loads(o) if "properties" in x for p in x["properties"]]
            except ValueError:
                ps = []
            want = [p for p in ps if p["class"] not in silent]
            if ps and len(r["checks"]) >= len(want):
                return
            r["checks"], r["again"] = [], True
            unwind = None
            for m in glob.glob(os.path.join(os.path.dirname(f), "*.kani-metadata.json")):
                for x in json.load(open(m)).get("proof_harnesses", []):
                    if x["pretty_name"] == name:
                        unwind = x["attributes"].get("unwind_value")
            t = time.time()
            extra = ["--unwind", str(unwind)] if unwind else []
            rc, o = run(flags + extra + ["--sat-solver", "cadical", "--slice-formula", "--verbosity", "9", f],
                        min(300, left() - 100), mem=16 << 30)
            if rc not in (0, 10) or not ps:
                return
            r["duration_ms"] += 1000 * (time.time() - t)
            by = {p["name"]: p for p in ps}
            for m in re.finditer(r"^\[(.+?)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", o, re.M):
                p = by.get(m.group(1))
                kind = p["class"] if p else ("unwind" if ".unwind." in m.group(1) else "assertion")
                if kind in silent:
                    continue
                st = {"SUCCESS": "Success", "FAILURE": "Failure"}.get(m.group(3), "Undetermined")
                if kind == "cover":
                    st = {"Failure": "Satisfied", "Success": "Unsatisfiable"}.get(st, st)
                loc = (p or {}).get("sourceLocation", {})
                r["checks"].append(dict(status=st, category=kind, description=m.group(2), function=loc.get("function", m.group(1)),
                                        location=dict(file=loc.get("file"), line=loc.get("line"))))
            if len(r["checks"]) < len(want):
                r["checks"] = []

        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, data.get("harness_metadata", [])))

    def playback(self, harness):
        """Concrete values of Kani's counterexamples, as flat octets."""
        log = os.path.join(self.kani_dir, "playback.log")
        cmd = ["cargo", "kani", "--target-dir", self.kani_dir, "-Z", "unstable-options", "-Z", "stubbing",
               "-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "300s"]
        if self.features:
            cmd += ["--features", ",".join(self.features)]
        cmd += ["--harness", harness, "--exact"]
        with open(log, "w") as f:
            run(cmd, min(320, left() - 60), env=self.env, cwd=VC, mem=16 << 30, out=f)
        text = open(log, errors="replace").read()
        found = []
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
            octets = bytearray()
            for v in re.finditer(r"vec!\[([0-9, \n]*)\]", m.group(1)):
                octets += bytes(int(x) for x in v.group(1).replace("\n", " ").split(",") if x.strip())
            if octets.hex() not in found:
                found.append(octets.hex())
        return found

    # ---------------------------------------------------------------- results
    def replay_file(self, harness, body):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{harness.replace('::', '-')}.txt")
        with open(path, "w") as f:
            f.write(body)
        return path

    def violation(self, harness, reproduced, body):
        if any(v[0] == harness for v in self.violations):
            return
        path = self.replay_file(harness, body)
        self.violations.append((harness, path, reproduced))
        print(f"VIOLATION property={self.prop} replay={path}" + ("" if reproduced else " no-failing-input-found"))
        sys.stdout.flush()

    def said(self, checks):
        return "verifier (Kani/CBMC):\n" + "".join(
            f"  {c['status']} [{c['category']}] {c['description']} in {c['function']} at "
            f"{c['location'].get('file')}:{c['location'].get('line')}\n" for c in checks[:20]) if checks else ""

    def failed(self, harness, checks):
        """A failed obligation: replay the counterexample on the real code, or search for one."""
        head = f"property {self.prop}\nobligation {harness}\n" + self.said(checks)
        tried = []
        st, o = self.native_search(harness, 3000)
        if st in ("fail", "crash"):
            return self.violation(harness, True, head + f"search on the real code: {o}\nrun: {self.vc} search {harness} {self.seed} 3000\n")
        if left() > 120:
            for v in self.playback(harness):
                st, o = self.vc_run(["replay", harness, v], 90)
                tried.append(f"  values {v}: {st} {o}")
                if st in ("fail", "crash"):
                    return self.violation(harness, True, head + f"counterexample on the real code: {o}\nrun: {self.vc} replay {harness} {v}\n")
        st, o = self.native_search(harness, 15000)
        if st in ("fail", "crash"):
            return self.violation(harness, True, head + f"search on the real code: {o}\nrun: {self.vc} search {harness} {self.seed} 15000\n")
        self.violation(harness, False, head + "counterexamples tried on the real code:\n" + "\n".join(tried) + "\n")

    def go(self):
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        self.build_native()
        own = self.expand(self.spec["own"])
        uses = self.expand(self.spec.get("uses", []))
        extra = self.expand(self.spec.get("thorough", []))
        late = extra if self.tier == "thorough" else []
        allh = own + [u for u in uses if u not in own] + [e for e in late if e not in own]
        dropped = {h: why for h in allh for why in [self.without(h)] if why}
        if dropped:
            for e in extra:
                if e not in allh:
                    allh.append(e)
        native_only = set(self.expand(self.spec["native"])) if self.spec.get("native") else set()
        proof = [h for h in allh if h not in dropped and h not in native_only]

        bounded = self.spec.get("bounded", {})
        native = {}
        # the contracts checked at run time on concrete values, and the bounded stand-ins
        ms = 400 if self.tier == "quick" else 5000
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = {ex.submit(self.native_search, h, ms if h not in dropped else 5 * ms): h for h in allh}
            for f in cf.as_completed(futs):
                native[futs[f]] = f.result()
            sweeps = self.spec.get("sweeps", {})
            sf = {ex.submit(self.vc_run, ["sweep", s], 300): s for s in sweeps}
            for f in cf.as_completed(sf):
                native["sweep " + sf[f]] = f.result()
        results, stats, undecided, secs = {}, {}, dict(dropped), {}
        kani_wall = 0
        if proof:
            t = time.time()
            rc, text, data = self.kani(proof, left() - 120, harness_timeout=min(420, max(60, left() - 150)))
            if data is None and rc is not None and self.cfgs:
                # the stand-ins do not fit the current source: without them
                m = re.search(r"^error.*$", text, re.M)
                for cfg in self.cfgs:
                    self.lost[cfg] = ["the verifier rejects the stand-in: " + (m.group(0) if m else "no message")]
                self.cfgs = [c for c in self.cfgs if c in table.PLAIN]
                for cfg in self.cfgs:
                    del self.lost[cfg]
                self.env = environment(self.cfgs)
                dropped.update({h: why for h in proof for why in [self.without(h)] if why})
                undecided_now = dict(dropped)
                proof = [h for h in proof if h not in dropped] + [e for e in extra if e not in allh and e not in dropped]
                undecided.update(undecided_now)
                if proof:
                    rc, text, data = self.kani(proof, left() - 120, harness_timeout=min(420, max(60, left() - 150)))
                else:
                    data = dict(verification_results=dict(results=[]))
            kani_wall = time.time() - t
            if data is None:
                if rc is None:
                    self.notes.append("the verifier did not end in time")
                    undecided.update({h: "no answer in time" for h in proof})
                else:
                    print(text[-6000:])
                    die("the verifier could not process the current source")
            else:
                for r in data["verification_results"]["results"]:
                    results[r["harness_id"]] = r
                self.complete(data, results)
                for c in data.get("cbmc", []):
                    stats[c["harness_id"]] = c.get("cbmc_stats") or {}
        counts = dict(obligations=0, discharged=0, unreachable=0, bounded_obligations=0, bounded_discharged=0,
                      covers=0, covers_satisfied=0)
        functions, per = set(), {}
        failing = {}
        for h in proof:
            r = results.get(h)
            if r is None:
                undecided.setdefault(h, "no result")
                continue
            checks = r["checks"]
            secs[h] = r["duration_ms"] / 1000
            if not checks or any(c["status"] == "Error" for c in checks):
                undecided[h] = "the verifier gave no answer (time or memory)"
                continue
            covers = [c for c in checks if c["category"] == "cover"]
            real = [c for c in checks if c["category"] != "cover"]
            bad = [c for c in real if c["status"] == "Failure"]
            unsup = [c for c in bad if c["category"] in ("unsupported_construct", "unwind", "recursion")]
            hard = [c for c in bad if c not in unsup]
            und = [c for c in real if c["status"] not in ("Success", "Unreachable", "Failure")]
            dead = [c for c in covers if c["status"] != "Satisfied"]
            good = [c for c in real if c["status"] in ("Success", "Unreachable")]
            b = h in bounded
            counts["bounded_obligations" if b else "obligations"] += len(real)
            counts["bounded_discharged" if b else "discharged"] += len(good)
            counts["unreachable"] += sum(c["status"] == "Unreachable" for c in good)
            counts["covers"] += len(covers)
            counts["covers_satisfied"] += len(covers) - len(dead)
            for c in real:
                f = c["location"].get("file") or ""
                if f.startswith(REPO + "/") and c["status"] != "Unreachable":
                    functions.add(re.sub(r"::<.*$", "", c["function"] or ""))
            per[h] = dict(checks=len(real), discharged=len(good), seconds=secs[h])
            if b:
                per[h]["bounded"] = bounded[h]
            if hard:
                failing[h] = hard
            elif unsup or und:
                undecided[h] = "; ".join(sorted({f"{c['category']}: {c['description']}" for c in unsup})) or "undetermined"
            elif dead:
                undecided[h] = "vacuous: not reachable: " + "; ".join(f"{c['location'].get('file')}:{c['location'].get('line')}" for c in dead)
        # contracts that fail on concrete values, with what the verifier says of them
        for h, (st, o) in sorted(native.items()):
            if st in ("fail", "crash"):
                name = h.replace("sweep ", "")
                how = "sweep " + name if h.startswith("sweep ") else f"search {name} {self.seed} {ms}"
                self.violation(name, True, f"property {self.prop}\nobligation {name}\n" + self.said(failing.get(name, []))
                               + f"on the real code: {o}\nrun: {self.vc} {how}\n")
        for n, (h, checks) in enumerate(failing.items()):
            if any(v[2] for v in self.violations):
                break
            if n < 3 and (n == 0 or left() > 240):
                self.failed(h, checks)
        # obligations without an answer: their contract on concrete values only
        for h, why in undecided.items():
            self.notes.append(f"undecided {h}: {why}")
            if not self.violations and left() > 60:
                st, o = self.native_search(h, int(min(5000, 1000 * (left() - 50) / max(1, len(undecided)))))
                native[h] = (st, o)
                if st in ("fail", "crash"):
                    self.violation(h, True, f"property {self.prop}\nobligation {h}\non the real code: {o}\n")

        runs = sum(int(m.group(1)) for st, o in native.values() for m in [re.search(r"(?:runs|cases)=(\d+)", o)] if m)
        known = self.known_findings()
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=self.spec.get("level", "proof"),
            coverage=dict(
                obligations=counts["obligations"] + counts["bounded_obligations"],
                discharged=counts["discharged"],
                checker_cmd=getattr(self, "checker_cmd", "cargo kani"),
                trusted_base=TRUSTED,
                counts=counts,
                contracts=len(proof), contracts_discharged=sum(1 for h in per if h not in undecided and h not in failing and h not in bounded),
                contracts_bounded={h: bounded[h] for h in proof if h in bounded},
                contracts_run_natively_only=sorted(native_only),
                undecided=undecided,
                functions_of_repo_with_obligations=sorted(functions),
                per_contract=per,
                backend=dict(name="Kani 0.68.0 / CBMC 6.11 / CaDiCaL", wall_s=round(kani_wall, 1),
                             solver_s=round(sum(s.get("runtime_solver_s") or 0 for s in stats.values()), 2),
                             symex_s=round(sum(s.get("runtime_symex_s") or 0 for s in stats.values()), 2)),
                concrete=dict(what="the same contracts run natively on the real code (random values, bounded sweeps); never counted as proved",
                              executions=runs, sweeps=self.spec.get("sweeps", {}),
                              results={h: o for h, (st, o) in sorted(native.items())}),
            ),
            assumptions=self.spec.get("assumptions", []) + table.ASSUMPTIONS + self.notes,
            wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print(k)
        n = len(proof)
        print(f"{self.prop}: {n} contracts, {counts['discharged']}/{counts['obligations']} obligations discharged, "
              f"{counts['bounded_discharged']}/{counts['bounded_obligations']} within stated bounds, "
              f"{len(undecided)} contracts undecided, {runs} concrete executions, {time.time() - T0:.0f} s")
        for x in self.notes:
            print("  " + x)
        sys.exit(1 if self.violations else 0)

    def known_findings(self):
        out = []
        try:
            for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
                m = re.match(r"finding: property=(\S+) entry=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop and m.group(2) in self.sweepable:
                    st, o = self.vc_run(["sweep", m.group(2)], 60)
                    if st == "held":
                        out.append(f"KNOWN-FINDING: property={self.prop} {m.group(3)}")
        except OSError:
            pass
        return out


if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in table.CHECKS:
        die("usage: check.py PROPERTY")
    try:
        Check(sys.argv[1]).go()
    except Exception as e:  # never an alarm
        import traceback
        traceback.print_exc()
        die(f"{type(e).__name__}: {e}")
