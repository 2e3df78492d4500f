"""Functional obligations: specifications over the abstract exits of exported functions."""
import json, os, re
import engine, vp


def expand(text):
    out = []
    for l in text.splitlines():
        if l.strip().startswith("#") or not l.strip():
            continue
        p = [x.strip() for x in l.split("|", 2)]
        m = re.match(r"^(\w+)::([^@]*)@(RES|KEY)(.*)$", p[1])
        if m:
            x, f, k, rest = m.groups()
            first = f"<{x} as NtfsStructuredValueFromResidentAttributeValue>::from_resident_attribute_value => Ok" if k == "RES" else f"<{x} as NtfsIndexEntryKey>::key_from_slice => Ok"
            p[1] = f"{first} ; {x}::{f}{rest}"
        out.append(" | ".join(p))
    return "\n".join(out) + "\n"


def parts(text, n):
    """splits the specifications by the type they speak about, so that several processes share the work"""
    groups = {}
    for l in text.splitlines():
        m = re.findall(r"\w*Ntfs\w+", l.split("|")[1])
        groups.setdefault(m[0] if m else "", []).append(l)
    out = [[] for _ in range(n)]
    for g in sorted(groups.values(), key=lambda g: -len(g)):
        min(out, key=len).extend(g)
    return ["\n".join(x) + "\n" for x in out if x]


def run(path, text, args, jobs=1):
    ts = parts(text, jobs) if jobs > 1 else [text]
    tmp = [os.path.join(vp.BUILD, "specs.%d.%d.txt" % (os.getpid(), i)) for i in range(len(ts))]
    for f, t in zip(tmp, ts):
        open(f, "w").write(t)
    try:
        rs = engine.engines(path, [list(args) + ["--specs=" + f] for f in tmp])
    finally:
        for f in tmp:
            os.unlink(f)
    r = dict(rs[0])
    r["specs"] = [s for x in rs for s in x["specs"]]
    r["functions"] = sorted({f for x in rs for f in x["functions"]})
    r["steps"] = sum(x["steps"] for x in rs)
    r["fits"] = all(x["fits"] for x in rs)
    return r


def decide(rep, pid, *names, jobs=1):
    """every specification line of specs/<name>.txt that belongs to the property"""
    prog, path = vp.extract("std")
    text = ""
    for n in names:
        text += "".join(l + "\n" for l in expand(open(os.path.join(vp.VERIF, "specs", n + ".txt")).read()).splitlines() if re.match(pid + r"(\*\d*)? \|", l))
    mode = "recorded type invariants (their inductiveness is part of C01/C02's run)"
    r = run(path, text, ["--hints=" + engine.HINTS % "std"], jobs)
    if not r["fits"] or any(s["bad"] for s in r["specs"]):
        # nothing is reported on the strength of stale invariants
        bad = {(s["id"], s["text"]) for s in r["specs"] if s["bad"]}
        r2 = run(path, text, [], jobs)
        mode = "type invariants inferred from scratch"
        for s in r2["specs"]:
            if r["fits"] and s["bad"] and (s["id"], s["text"]) not in bad:
                s["bad"] = []
        r = r2
    for s in r["specs"]:
        rep.count("specifications")
        rep.count("abstract_exits", s["exits"])
        rep.count("exits_where_it_holds", s["held"])
        if s["bad"]:
            rep.count("specifications_violated")
            rep.violation("%s|%s" % (s["id"], s["text"]), "%s: not \"%s\": %s" % (s["id"], s["text"], s["bad"][0]))
        elif s["missing"]:
            rep.count("specifications_not_applicable_to_this_tree")
            rep.samples.append("not applicable: %s | %s (%s)" % (s["id"], s["text"], s["missing"]))
        elif s["unknown"]:
            rep.count("specifications_undecided")
        elif s["held"] == 0:
            rep.count("specifications_vacuous")
        else:
            rep.count("specifications_proved")
            if rep.counts["specifications_proved"] % 7 == 1:
                rep.samples.append("%s: \"%s\" holds at all %d abstract exits" % (s["id"], s["text"], s["exits"]))
    rep.count("functions_interpreted", len(r["functions"]))
    rep.count("abstract_steps", r["steps"])
    rep.assumptions = ["models of std functions in absint/src/models.rs", "the reader behaves like a file: a byte at a position does not change while the filesystem is open",
                       "mode: " + mode]
    if not rep.counts.get("specifications_proved") and not rep.viol:
        raise vp.CheckError("no specification could be decided on this tree")


if __name__ == "__main__":
    import sys
    sys.stdout.write(expand(open(sys.argv[1]).read()))
