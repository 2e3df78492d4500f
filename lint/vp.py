"""Common plumbing of the checks: builds the tools, extracts the program from /repo's current
working tree, reports violations and writes evidence."""
import fcntl, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
DRIVER = os.path.join(VERIF, "driver/target/release/mirx")
ABSINT = os.path.join(VERIF, "absint/target/release/absint")
T0 = time.time()


class CheckError(Exception):
    pass


def run(cmd, env=None, cwd=None, ok=True, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if ok and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.returncode, p.stdout


def newer(target, *dirs):
    """True if target exists and is at least as new as every source file below dirs."""
    if not os.path.exists(target):
        return False
    t = os.path.getmtime(target)
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x != "target"]
            for f in fs:
                if f.endswith((".rs", ".toml", ".lock")) and os.path.getmtime(os.path.join(root, f)) > t:
                    return False
    return True


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        ir = os.path.join(VERIF, "ir")
        d = os.path.join(VERIF, "driver")
        if not newer(DRIVER, d, ir):
            run(["cargo", "+nightly", "build", "--offline", "--release", "-q"], cwd=d)
            os.utime(DRIVER)
        a = os.path.join(VERIF, "absint")
        if not newer(ABSINT, a, ir):
            run(["cargo", "build", "--offline", "--release", "-q"], cwd=a)
            os.utime(ABSINT)


_sysroot = None


def sysroot_lib():
    global _sysroot
    if _sysroot is None:
        _, o = run(["rustc", "+nightly", "--print", "sysroot"])
        _sysroot = o.strip() + "/lib"
    return _sysroot


def forget(target, *crates):
    """cargo trusts mtimes; forget the fingerprints of these crates so that rustc looks at the contents."""
    for c in crates:
        shutil.rmtree(os.path.join(target, "debug", "build", c), ignore_errors=True)
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if any(re.fullmatch(re.escape(c) + r"-[0-9a-f]+", d) for c in crates):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def extract(which="std"):
    """Runs the compiler on /repo's current tree and returns (program, path).
    which: std (features std,time) | nostd (no features)."""
    build_tools()
    src = os.path.join(VERIF, "probe")
    if REPO != "/repo":  # a scratch copy during development
        alt = os.path.join(BUILD, "probe-alt")
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(src, alt)
        c = open(os.path.join(alt, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(alt, "Cargo.toml"), "w").write(c)
        src = alt
    target = os.path.join(BUILD, "probe-" + which)
    out = os.path.join(BUILD, "prog-%s.json" % which)
    with open(os.path.join(BUILD, "lock-" + which), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        forget(target, "ntfs", "probe")
        tmp = out + ".%d" % os.getpid()
        cmd = ["cargo", "+nightly", "check", "--offline", "--color=never"]
        if which == "nostd":
            cmd += ["--no-default-features"]
        rc, o = run(cmd, cwd=src, ok=False, env={
            "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings", "MIRX_OUT": tmp, "LD_LIBRARY_PATH": sysroot_lib(),
            "RUSTC_WRAPPER": DRIVER, "CARGO_TARGET_DIR": target, "CARGO_INCREMENTAL": "0"})
        if rc != 0 or not os.path.exists(tmp):
            raise BuildFailed(o)
        os.replace(tmp, out)
    with open(out) as f:
        return json.load(f), out


def extract_shell():
    """call sites of the example shell's own code"""
    build_tools()
    src = os.path.join(VERIF, "shell")
    if REPO != "/repo":
        alt = os.path.join(BUILD, "shell-alt")
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(src, alt)
        c = open(os.path.join(alt, "Cargo.toml")).read().replace('"/repo', '"%s' % REPO)
        open(os.path.join(alt, "Cargo.toml"), "w").write(c)
        src = alt
    target = os.path.join(BUILD, "shell-target")
    out = os.path.join(BUILD, "shell.json")
    with open(os.path.join(BUILD, "lock-shell"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        forget(target, "ntfs", "shellprobe")
        tmp = out + ".%d" % os.getpid()
        rc, o = run(["cargo", "+nightly", "check", "--offline", "--color=never"], cwd=src, ok=False, env={
            "RUSTFLAGS": "-Zmir-opt-level=0 -Awarnings", "MIRX_OUT": tmp, "LD_LIBRARY_PATH": sysroot_lib(),
            "RUSTC_WORKSPACE_WRAPPER": DRIVER, "CARGO_TARGET_DIR": target, "CARGO_INCREMENTAL": "0"})
        if rc != 0 or not os.path.exists(tmp):
            raise BuildFailed(o)
        os.replace(tmp, out)
    return json.load(open(out))


class BuildFailed(CheckError):
    def __init__(self, out):
        super().__init__("the program could not be extracted:\n" + out[-3000:])
        self.out = out


def known_findings(pid):
    """known-findings.txt: 'finding: property=<id> key=<key> <text>' suppresses exactly this key."""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


class Report:
    """Collects obligations and violations of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.viol = []       # (key, text)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.explain = ""

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def violation(self, key, text):
        key = re.sub(r"\s+", "", key)
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def floor(self, name, n):
        """Fails closed when fewer instances than confirmed by hand were found."""
        if self.counts.get(name, 0) < n:
            self.violation("floor:" + name, "only %d %s analysed, at least %d expected: the anchor of the rule has disappeared" % (self.counts.get(name, 0), name, n))

    def finish(self):
        known = known_findings(self.pid)
        new = []
        for k, t in self.viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
            else:
                new.append((k, t))
        rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if new:
            with open(rp, "w") as f:
                for k, t in new:
                    f.write("%s\n    %s\n" % (k, t))
            for k, t in new[:40]:
                print("  [%s] %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        elif os.path.exists(rp):
            os.unlink(rp)
        cov = {"explanation": self.explain, **self.counts, "samples": self.samples[:12]}
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s; %d violation(s), %d known, %.1f s" % (self.pid, ", ".join("%s=%s" % kv for kv in self.counts.items()), len(new), len(self.viol) - len(new), time.time() - T0))
        return 1 if new else 0
