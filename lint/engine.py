"""Runs the abstract interpreter on the extracted program and classifies its obligations."""
import collections, json, os, re, subprocess
import vp


HINTS = os.path.join(vp.VERIF, "hints-%s.json")
JOBS = int(os.environ.get("VP_JOBS", 3))


def engine(path, args, jobs=1):
    """one or several engine processes; every process analyses a part of the entry points"""
    return engines(path, [list(args) + (["--part=%d/%d" % (k, jobs)] if jobs > 1 else []) for k in range(jobs)])


def engines(path, argss):
    ps = []
    for k, args in enumerate(argss):
        out = os.path.join(vp.BUILD, "engine.%d.%d.json" % (os.getpid(), k))
        log = open(out + ".log", "w")
        ps.append((subprocess.Popen([vp.ABSINT, path, "--json=" + out] + args, stdout=log, stderr=subprocess.STDOUT), out, log))
    rs = []
    bad = None
    for p, out, log in ps:
        rc = p.wait()
        log.close()
        if rc != 0 or not os.path.exists(out):
            bad = "the abstract interpreter failed (%d):\n%s" % (rc, open(log.name).read()[-2000:])
        else:
            rs.append(json.load(open(out)))
            os.unlink(out)
        os.unlink(log.name)
    if bad:
        raise vp.CheckError(bad)
    return rs


def key(h):
    return (h["type"], h["variant"])


def hinted(path, hints, args):
    """Checks the recorded invariants; those that fail are dropped until the rest is inductive."""
    tmp = os.path.join(vp.BUILD, "hints.%d.json" % os.getpid())
    for _ in range(20):
        json.dump(hints, open(tmp, "w"))
        rs = engine(path, list(args) + ["--hints=" + tmp], JOBS)
        os.unlink(tmp)
        left = {key(h): h for h in hints}
        new = {}
        for r in rs:
            for h in r["hints"]:
                k = key(h)
                if k in left:
                    keep = [c for c in left[k]["cands"] if c in h["cands"]]
                    left[k] = dict(left[k], cands=keep, used=left[k]["used"] or h["used"])
                elif h["used"]:
                    new[k] = dict(h, cands=[])
        merged = list(left.values()) + [h for k, h in new.items()]
        if {key(h): (h["cands"], h["used"]) for h in merged} == {key(h): (h["cands"], h["used"]) for h in hints}:
            return merge(rs), all(r["fits"] for r in rs)
        hints = merged
    raise vp.CheckError("the recorded invariants do not stabilise")


def merge(rs):
    obs = {}
    for r in rs:
        for o in r["obligations"]:
            k = (o["path"], o["kind"], o["line"])
            x = obs.setdefault(k, dict(o))
            x["n"] = max(x["n"], o["n"])
            if x["ok"] and not o["ok"]:
                x.update(ok=False, msg=o["msg"], root=o["root"])
    m = dict(rs[0])
    m["obligations"] = [obs[k] for k in sorted(obs)]
    m["functions"] = sorted({f for r in rs for f in r["functions"]})
    m["steps"] = sum(r["steps"] for r in rs)
    w = collections.Counter()
    for r in rs:
        for k, n in r["warnings"].items():
            w[k] = max(w[k], n)
    m["warnings"] = dict(w)
    return m


def analyse(which="std", args=(), good=None, recorded=None):
    """good(result): do the recorded invariants settle everything?  If they do not, the invariants are inferred from scratch."""
    p, path = vp.extract(which)
    hf = HINTS % (recorded or which)
    if os.path.exists(hf):
        r, fits = hinted(path, json.load(open(hf)), args)
        r["mode"] = "recorded invariants, checked again"
        if good is None or good(r):
            return r
    r = engine(path, args)[0]
    r["mode"] = "invariants inferred from scratch"
    return r


def norm_file(f):
    return re.sub(r"^.*?/?(src/)", r"\1", f.replace(vp.REPO + "/", ""))


def norm_kind(k):
    return re.sub(r"<[\w:<> ]+ as ([\w:]+)>", r"\1", k).replace(" ", "_")


def undecided():
    """lines: <kind-class> <file> <kind> <count> (reason): obligations the analysis cannot decide on the code as it is"""
    r = {}
    p = os.path.join(vp.VERIF, "undecided.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"(\S+) (\S+) (\S+) (\d+)", line)
            if m and not line.startswith("#"):
                r[(m.group(1), m.group(2), m.group(3))] = int(m.group(4))
    return r


def failing(pid, res, want):
    fails = collections.defaultdict(list)
    for o in res["obligations"]:
        if want(o["kind"]) and not o["ok"]:
            fails[(pid, norm_file(o["file"]), norm_kind(o["kind"]))].append(o)
    und = undecided()
    return {k: v for k, v in fails.items() if len(v) > und.get(k, 0)}


def word_size(rep, pid, want):
    """obligations that hold with 64-bit words but not with 32-bit words"""
    other = {}

    def wider(r):
        if not other:
            other["r"] = analyse("std")
        f64 = failing(None, other["r"], want)
        f = {k: v for k, v in failing(pid, r, want).items() if len(v) > len(f64.get((None,) + k[1:], []))}
        return f
    res = analyse("std", ["--bits=32"], good=lambda r: not wider(r), recorded="std32")
    count(rep, res, want)
    for k, os_ in sorted(wider(res).items()):
        for o in os_:
            rep.violation("%s|%s|%s" % (o["path"], o["kind"], norm_file(o["file"])),
                          "with 32-bit words, %s in %s at %s:%d can happen, reached from %s: %s" % (o["kind"], o["path"], norm_file(o["file"]), o["line"], o["root"], o["msg"]))
    totals(rep, res)


def count(rep, res, want):
    for o in res["obligations"]:
        if not want(o["kind"]):
            continue
        rep.count("obligation_sites")
        rep.count("obligation_instances", o["n"])
        if o["ok"]:
            rep.count("proved_sites")
            if len(rep.samples) < 12 and rep.counts["proved_sites"] % 12 == 1:
                rep.samples.append("%s: %s (%s:%d) holds on all %d abstract paths" % (o["path"], o["kind"], norm_file(o["file"]), o["line"], o["n"]))
        else:
            rep.count("undecided_or_failing_sites")


def decide(rep, pid, want):
    """want(kind) selects the obligations of the property"""
    res = analyse("std", good=lambda r: not failing(pid, r, want))
    count(rep, res, want)
    for k, os_ in sorted(failing(pid, res, want).items()):
        for o in os_:
            rep.violation("%s|%s|%s" % (o["path"], o["kind"], norm_file(o["file"])),
                          "%s in %s at %s:%d can happen, reached from %s: %s" % (o["kind"], o["path"], norm_file(o["file"]), o["line"], o["root"], o["msg"]))
    totals(rep, res)


def totals(rep, res):
    if any("stabilise" in w for w in res["warnings"]):
        raise vp.CheckError("the invariants do not stabilise")
    rep.count("public_entry_points", res["roots"])
    rep.count("functions_interpreted", len(res["functions"]))
    rep.count("type_invariants", sum(1 for i in res["invariants"] if i["n"]))
    rep.count("abstract_steps", res["steps"])
    rep.assumptions = ["models of std functions in absint/src/models.rs", "the caller passes values obtained from this API (type invariants) and arbitrary scalars",
                       "mode: " + res["mode"], "obligations listed in undecided.txt are not decided",
                       "engine warnings: " + "; ".join("%s x%s" % (w[:90], n) for w, n in list(res["warnings"].items())[:12])]


def is_c02(k):
    return k.startswith("overflow") or k.startswith("lossy")


def is_c04(k):
    return k.startswith("allocation")


def is_c14(k):
    return k.startswith("fs read")


def is_c07(k):
    return k.startswith("failure")


def is_c01(k):
    return not (is_c02(k) or is_c04(k) or is_c07(k) or is_c14(k))


def is_c10(k):
    return is_c01(k) or is_c02(k)
