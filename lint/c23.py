"""C23: effects of the example shell on files. Effect rules over all call sites of its code, with a
dataflow of the options each file is opened with."""
import re
import vp

# everything else of these modules may change something outside the process
EFFECT = re.compile(r"^(std|tokio|libc)::(fs|process|net|os|thread)::")
ALLOWED = {"std::fs::File::open", "std::fs::OpenOptions::new", "std::fs::File::options", "std::fs::File::metadata", "std::fs::metadata", "std::fs::Metadata::len", "std::fs::File::try_clone", "std::fs::exists", "std::fs::symlink_metadata", "std::fs::File::sync_all", "std::fs::File::sync_data", "std::fs::File::create_new", "std::process::exit", "std::process::ExitCode::from"}
OPT = "std::fs::OpenOptions::"
PLAIN = {"read", "write", "create_new", "create", "truncate", "append", "open"}


def check(rep):
    rep.explain = ("every call site and function value of the shell's own code is checked against the allowed file system effects; for every OpenOptions::open the options set on the same builder are followed: "
                   "it must be read-only or end with create_new(true); unsafe code is forbidden by the compiler")
    try:
        p = vp.extract_shell()
    except vp.BuildFailed as e:
        if "unsafe_code" in e.out or "E0133" in e.out:
            rep.violation("unsafe", "the compiler rejects the shell with unsafe code forbidden: " + e.out[-600:])
            return
        raise
    opens = 0
    for f in p["fns"]:
        rep.count("functions")
        for c in f["calls"]:
            rep.count("call_sites")
        # function values and calls alike
        for m in sorted(set(f["mentions"])):
            name = m.replace("<T>", "")
            if m.startswith(OPT):
                if m[len(OPT):] not in PLAIN | {"new"} and not m[len(OPT):].startswith("<"):
                    rep.violation("effect:%s:%s" % (f["name"], m), "%s uses %s" % (f["name"], m))
                continue
            if EFFECT.match(name) and name not in ALLOWED and not re.match(r"^std::(fs::(File|Metadata|FileType)::(metadata|len|is_\w+|modified|created)|os::\w+::ffi::|thread::sleep)", name):
                l = next((c["line"] for c in f["calls"] if c["callee"] == m), "?")
                rep.violation("effect:%s:%s" % (f["name"], m), "%s at line %s uses %s, which may change or overwrite files" % (f["name"], l, m))
        cs = f["calls"]
        for i, c in enumerate(cs):
            if c["callee"] != OPT + "open":
                if c["callee"] in ("std::fs::File::open", "std::fs::File::create_new"):
                    opens += 1
                continue
            opens += 1
            chain = builder(f, c["args"][0].get("local"))
            if not any(x["callee"] in (OPT + "new", "std::fs::File::options") for x in chain):
                rep.count("undecided_opens")
                continue
            val = {}
            for x in chain:
                o = x["callee"][len(OPT):]
                if x["callee"].startswith(OPT) and o in PLAIN and o != "open":
                    # a setting that is made in different ways, or that is not constant, counts as the worse
                    b = x["args"][1].get("bool")
                    val.setdefault(o, []).append(b)
            def may(o):
                return any(b is not False for b in val.get(o, []))
            def must(o):
                return bool(val.get(o)) and all(b is True for b in val[o])
            writes = may("write") or may("append") or may("truncate") or may("create")
            if writes and not must("create_new"):
                rep.violation("open:%s" % f["name"], "%s at line %s opens a file for writing without create_new(true): options %s; an existing file can be modified" % (f["name"], c["line"], val))
    for s in p["statics"]:
        rep.count("statics")
    rep.count("file_openings", opens)
    rep.floor("call_sites", 50)
    rep.samples = ["%s: %d call sites" % (f["name"], len(f["calls"])) for f in p["fns"][:5]]
    rep.assumptions = ["functions of std outside fs, process, net, os do not touch files", "the crates anyhow, time and ntfs do not write files (for ntfs this is C09)"]


def builder(f, local):
    """all calls on the builder object that `local` denotes"""
    same = {local}
    cs = f["calls"]
    while True:
        n = len(same)
        for d, s in f["copies"]:
            if d in same or s in same:
                same |= {d, s}
        for c in cs:
            if c["callee"].startswith(OPT) and c["callee"] != OPT + "open" and c["args"]:
                x = c["args"][0].get("local")
                if c["dest"] in same or x in same:
                    same |= {c["dest"], x}
        if len(same) == n:
            break
    return [c for c in cs if c["dest"] in same or (c["callee"].startswith(OPT) and c["args"] and c["args"][0].get("local") in same)]
