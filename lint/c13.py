import re
import mir, spec, vp

# seeking in these is arithmetic on what is already in memory
PURE = re.compile(r"<(\w+::)*(NtfsResidentAttributeValue|NtfsNonResidentAttributeValue|NtfsDataRun)(<.*>)? as .*NtfsReadSeek>::seek")


def check(rep):
    prog, path = vp.extract("std")
    P = mir.Prog(prog)
    spec.decide(rep, "C13", "seek", jobs=4)
    for r in P.roots:
        f = P.fns[r["f"]]
        if PURE.match(f["name"]):
            rep.count("seek_functions_without_reads")
            for g in P.reachable([r["f"]]):
                if P.fns[g]["path"].endswith("Read>::read"):
                    rep.violation("%s|%s" % (f["path"], P.fns[g]["path"]), "%s reaches %s: a seek touches the filesystem" % (f["name"], P.fns[g]["path"]))
    rep.explain = "Every seek implementation is interpreted abstractly for an arbitrary state and target; at every exit the reported and the observable position must be the requested one and impossible targets must be rejected. The call graph of the in-memory seeks contains no operation on the reader."
