"""Shared machinery of the checks: overlay build, Kani, Verus, native engine, verdict, evidence."""
import glob, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "-Awarnings"
    e.pop("RUSTC_WRAPPER", None)
    return e


def run(cmd, cwd, timeout, extra_env=None, out=None):
    """Runs a command in its own process group; returns (rc or None on timeout, output)."""
    e = env()
    if extra_env:
        e.update(extra_env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o


# ---------------------------------------------------------------- overlay
class Overlay:
    """A copy of /repo/src, byte for byte, to which `mod` lines are added that pull the harness
    files of /verif/kani into the modules they need to see inside of."""

    def __init__(self, work, mods, features=""):
        self.dir = work
        self.mods = dict(mods)
        self.lost = {}
        self.features = features

    def build(self):
        if os.path.isdir(self.dir):
            shutil.rmtree(os.path.join(self.dir, "src"), ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        shutil.copytree(SRC, os.path.join(self.dir, "src"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "laz"\nversion = "0.13.0"\nedition = "2021"\n\n[lib]\ndoctest = false\n\n'
                    '[features]\ndefault = [%s]\nparallel = ["rayon"]\n\n[dependencies]\n'
                    'num-traits = "0.2.14"\nbyteorder = "1.4.3"\n'
                    'rayon = { path = "%s/kani/rayon", optional = true }\n[workspace]\n' % (
                        '"parallel"' if self.features == "parallel" else "", VERIF))
        lock = os.path.join(VERIF, "kani", "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(self.dir, "Cargo.lock"))
        self.attach("lib.rs", None, "ghost", "verif_ghost")
        # visible to the contract types
        p = os.path.join(self.dir, "src", "las", "mod.rs")
        if os.path.exists(p):
            t = open(p).read()
            open(p, "w").write(re.sub(r"(?m)^mod utils;", "pub(crate) mod utils;", t))
        for name, (src, anchor, *edits) in self.mods.items():
            self.attach(src, anchor, name, "verif_kani")
            for old, new in edits:
                # a recursive call, or a big table, is replaced by its contract (see the harness file)
                p = os.path.join(self.dir, "src", src)
                if os.path.exists(p):
                    t = open(p).read()
                    open(p, "w").write(re.sub(old[3:], new, t) if old.startswith("re:") else t.replace(old, new))

    def attach(self, src, anchor, name, modname):
        path = os.path.join(self.dir, "src", src)
        line = '#[cfg(kani)] #[path = "%s/kani/%s.rs"] pub mod %s;\n' % (VERIF, name, modname)
        if not os.path.exists(path):
            self.lost[name] = "no file %s" % src
            return
        s = open(path).read()
        if anchor is None:
            s = s.rstrip("\n") + "\n" + line
            if src == "lib.rs":
                s = "#![recursion_limit = \"1024\"]\n" + s
        else:
            m = re.search(r"^(pub(\([a-z]+\))? )?mod %s \{[ \t]*\n" % re.escape(anchor), s, re.M)
            if not m:
                self.lost[name] = "no inline module %s in %s" % (anchor, src)
                return
            # inner doc comments have to stay first
            end = m.end()
            while True:
                d = re.match(r"[ \t]*(//!.*)?\n", s[end:])
                if not d:
                    break
                end += d.end()
            s = s[:end] + "    " + line + s[end:]
        open(path, "w").write(s)

    def drop(self, names, why):
        for n in names:
            self.lost[n] = why
            self.mods.pop(n, None)


KANI_BASE = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--output-format", "terse",
             "--no-assertion-reach-checks"]


def run_kani(work, harnesses, mods, jobs, deadline, harness_timeout, features="", extra=()):
    """harnesses: {full name: attrs}. Returns {full name: dict(status=proved|failed|undecided, ...)}"""
    res = {h: dict(status="undecided", why="not run", checks=0, ok=0) for h in harnesses}
    ov = Overlay(work, mods, features)
    jf = os.path.join(work, "kani.json")
    log = ""
    todo = dict(harnesses)
    for attempt in range(5):
        ov.build()
        todo = {h: a for h, a in todo.items() if a["file"] not in ov.lost}
        for h, a in harnesses.items():
            if a["file"] in ov.lost:
                res[h]["why"] = "harness file dropped: " + ov.lost[a["file"]]
        if not todo:
            break
        if os.path.exists(jf):
            os.remove(jf)
        left = max(10, deadline - time.time())
        cmd = KANI_BASE + list(extra) + ["-j", str(jobs), "--harness-timeout", "%ds" % min(harness_timeout, left),
                                         "--export-json", jf, "--exact"]
        for h in todo:
            cmd += ["--harness", h]
        rc, log = run(cmd, work, left)
        open(os.path.join(work, "kani.log"), "w").write(log)
        if rc is None:
            for h in todo:
                res[h]["why"] = "time limit of the check"
            break
        if os.path.exists(jf):
            break
        # compile error: which harness files does it point at?
        bad = set(re.findall(r"%s/kani/([a-z0-9_]+)\.rs:\d+" % re.escape(VERIF), log_errors(log)))
        m = re.findall(r"Failed to match the following harness\(es\):\n((?:.+\n)+?)Please", log)
        if m:
            miss = [x.strip() for x in m[0].split("\n") if x.strip()]
            for h in miss:
                res.get(h, {})["why"] = "harness not found"
                todo.pop(h, None)
            if not miss:
                break
            continue
        files = set(re.findall(r"--> src/([a-z0-9_/]+\.rs):\d+", log_errors(log)))
        bad |= {n for n, m in ov.mods.items() if m[0] in files and len(m) > 2}
        bad &= set(ov.mods)
        if not bad:
            for h in todo:
                res[h]["why"] = "does not compile under Kani: " + log_errors(log)[:400]
            break
        ov.drop(bad, "does not compile: " + log_errors(log)[:400])
    if os.path.exists(jf):
        parse_kani(jf, log, res, todo)
    for p in glob.glob(os.path.join(work, "target", "kani", "*", "debug", "build", "laz", "*", "out", "*.out")):
        try:
            os.remove(p)
        except OSError:
            pass
    return res, ov.lost


def log_errors(log):
    parts = re.split(r"\n(?=warning|error)", log)
    return "\n".join(p for p in parts if p.startswith("error"))


def parse_kani(jf, log, res, todo):
    d = json.load(open(jf))
    stats = {c["harness_id"]: c for c in d.get("cbmc", []) if isinstance(c, dict)}
    seen = set()
    for r in d["verification_results"]["results"]:
        h = r["harness_id"]
        if h not in res:
            continue
        seen.add(h)
        out = res[h]
        checks = r.get("checks", [])
        out["seconds"] = round(r.get("duration_ms", 0) / 1000, 1)
        st = (stats.get(h) or {}).get("cbmc_metadata") and (stats.get(h) or {}).get("cbmc_stats") or {}
        st = (stats.get(h) or {}).get("cbmc_stats") or {}
        out["solver_seconds"] = st.get("runtime_decision_procedure_s")
        out["solver"] = ((stats.get(h) or {}).get("configuration") or {}).get("solver")
        failed, covers, soft = [], [], []
        n = ok = 0
        for c in checks:
            s, cat = c["status"].lower(), (c.get("category") or "").lower()
            if cat == "cover" or s in ("satisfied", "unsatisfiable", "covered", "uncovered"):
                covers.append(s)
                continue
            n += 1
            if s in ("success", "unreachable"):
                ok += 1
            elif s == "failure":
                loc = c.get("location") or {}
                item = "%s [%s] at %s:%s in %s" % (c.get("description"), cat, loc.get("file"), loc.get("line"), c.get("function"))
                if cat in ("unwind", "unsupported_construct", "recursion") or "unwinding assertion" in (c.get("description") or "") \
                        or "is not currently supported by Kani" in (c.get("description") or ""):
                    soft.append(item)
                else:
                    failed.append(item)
        out["checks"], out["ok"] = n, ok
        if r["status"] == "Success":
            if (not covers and todo[h].get("reach", True)) or any(s not in ("satisfied", "covered") for s in covers):
                out["status"], out["why"] = "undecided", "vacuous: end of harness not reachable (%s)" % covers
            else:
                out["status"], out["why"] = "proved", ""
        elif soft:
            # an unwound loop or a missing construct: nothing beyond it can be trusted either way
            out["status"], out["why"] = "undecided", "; ".join(soft[:3])
            out["also"] = failed[:5]
        elif failed:
            out["status"], out["why"], out["failed"] = "failed", "; ".join(failed[:4]), failed
        else:
            out["why"] = "no result (timeout or solver failure)"
    for h in todo:
        if h not in seen:
            res[h]["why"] = "no result (timeout or crash)"


# ---------------------------------------------------------------- engine
ENGINE = os.path.join(VERIF, "engine")


def build_engine(asan=False):
    cmd = ["cargo", "build", "--release", "--offline"]
    x = {}
    if asan:
        cmd = ["cargo", "+nightly", "build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu",
               "--target-dir", os.path.join(ENGINE, "target", "asan")]
        x = {"RUSTFLAGS": "-Awarnings -Zsanitizer=address", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false",
             "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false"}
    rc, o = run(cmd, ENGINE, 400, x)
    b = os.path.join(ENGINE, "target", "asan/x86_64-unknown-linux-gnu/release" if asan else "release", "laz-engine")
    if rc != 0 or not os.path.exists(b):
        return None, o
    return b, o


class EngineRun:
    """Several worker processes per group, each with its own seed."""

    def __init__(self, binary, groups, seed, secs, workers, salt=0):
        self.results, self.threads, self.lock = [], [], threading.Lock()
        jobs = []
        for gi, g in enumerate(groups):
            for w in range(workers.get(g, 1) if isinstance(workers, dict) else workers):
                jobs.append((g, seed * 100000 + salt * 1000 + gi * 50 + w))
        for g, s in jobs:
            t = threading.Thread(target=self.one, args=(binary, g, s, secs))
            t.start()
            self.threads.append(t)

    def one(self, binary, g, s, secs):
        x = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "RAYON_NUM_THREADS": "3"}
        rc, o = run([binary, g, str(s), str(secs), "100000000"], ENGINE, secs + 150, x)
        fail = re.search(r"^FAIL (\S+) (\d+) (\d+) (.*)$", o, re.M)
        n = re.search(r"^CASES (\d+) FAILS", o, re.M)
        r = dict(group=g, seed=s, cases=int(n.group(1)) if n else 0, rc=rc, fail=None)
        if fail:
            r["fail"] = dict(group=g, seed=int(fail.group(2)), case=int(fail.group(3)), message=fail.group(4)[:2000])
        elif rc not in (0, 3):
            # aborted: find the case
            rc2, o2 = run([binary, g, str(s), str(secs + 20), "100000000"], ENGINE, secs + 170, dict(x, ENGINE_TRACE="1"))
            idx = re.findall(r"^CASE (\d+)$", o2, re.M)
            if rc2 not in (0, 3) and idx:
                tail = "\n".join(l for l in o2.splitlines() if not l.startswith("CASE "))[:1500]
                r["fail"] = dict(group=g, seed=s, case=int(idx[-1]), message="process ended with %s: %s" % (rc2, tail))
            else:
                r["note"] = "ended with %s, not reproduced" % rc
        with self.lock:
            self.results.append(r)

    def wait(self):
        for t in self.threads:
            t.join()
        return self.results


# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: property=%s " % prop):
            m = re.match(r"finding: property=(\S+) cmd=\[(.*?)\] (.*)", l)
            out.append((m.group(2).split(), m.group(3)))
    return out
