"""C09: effects of the library. Type and effect rules over everything reachable from the public API."""
import re
import mir, vp

# crates whose code may be reached; the effects of std are listed one by one
PURE_CRATES = {"ntfs", "core", "alloc", "binrw", "bitflags", "arrayvec", "array_init", "byteorder", "memoffset", "nt_string", "probe", "bytemuck"}
# everything of std and time the library may reach (clock-free conversions only)
STD_OK = [r"^std::time::SystemTime::duration_since$", r"^std::rt::begin_panic", r"^std::time::Duration::", r"^time::offset_date_time::OffsetDateTime::(from_)?unix_timestamp_nanos$"]
BAD = re.compile(r"(^|<|\s|&)(std|core|alloc)::(fs|net|process|env|os|thread|sync|cell|arch|backtrace|ffi)::|SystemTime::now|Instant::now|io::(Write|copy|stdio|Stdin|Stdout)|io::stdio|core::ptr::(read|write|swap|replace|copy)|transmute")
CELLS = re.compile(r"^(core::|std::)?(cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|sync::|sync::atomic::)|::Atomic|::Mutex|::RwLock|::OnceLock|::LazyLock")


def check(rep):
    rep.explain = ("effect and ownership rules decided on the resolved program: the compiler is run with unsafe code forbidden for the crate; the whole API is instantiated "
                   "for a reader that only implements Read and Seek; every function reachable from any public function is checked against the allowed effects; no type of the crate contains interior mutability; "
                   "no mutable, thread-local or interior-mutable static is mentioned")
    try:
        p, _ = vp.extract("std")
    except vp.BuildFailed as e:
        if "unsafe_code" in e.out or "E0133" in e.out:
            rep.violation("unsafe", "the compiler rejects the crate with unsafe code forbidden: " + e.out[-600:])
            return
        if re.search(r"(Write|Clone|Sync|Send)` is not (implemented|satisfied)|trait bound `.*Fs", e.out):
            rep.violation("bound", "the API needs more than Read + Seek: " + e.out[-600:])
            return
        raise
    P = mir.Prog(p)
    rep.count("public_instances", len(P.roots))
    rep.floor("public_instances", 500)
    # the public functions that could not be instantiated with a reader that is only Read + Seek
    for s in p["skipped"]:
        if not re.search(r"as std::(fmt|hash)::", s):
            rep.violation("skipped:" + s, "public function cannot be used with a reader that is only Read + Seek: " + s)
    seen = P.reachable([r["f"] for r in P.roots])
    reads = 0
    for i in seen:
        f = P.fns[i]
        rep.count("functions")
        n = f["path"]
        k = f["krate"]
        if k == "probe":
            reads += 1
        if k == "ntfs":
            rep.count("library_functions")
            if f["is_unsafe"]:
                rep.violation("unsafefn:" + n, "unsafe function in the library: " + n)
        if k not in PURE_CRATES and not any(re.search(x, n) for x in STD_OK):
            rep.violation("effect:" + n, "reaches %s of crate %s, which is not in the list of effect-free code; called from %s" % (n, k, who(P, seen, i)))
        elif BAD.search(n) and direct(P, seen, i):
            rep.violation("effect:" + n, "the library uses %s (called from %s)" % (n, who(P, seen, i)))
    rep.count("reader_operations", reads)
    rep.floor("reader_operations", 2)
    # hidden state
    adts = 0
    for ti, t in enumerate(P.types):
        a = P.adt(ti)
        if not a or a["krate"] != "ntfs":
            continue
        adts += 1
        for v in a["variants"]:
            for fn, ft in v["fields"]:
                c = find_cell(P, ft, set())
                if c:
                    rep.violation("cell:%s.%s" % (a["path"], fn), "field %s of %s contains interior mutability (%s)" % (fn, a["path"], c))
                rep.count("fields")
    rep.count("library_types", adts)
    rep.floor("library_types", 60)
    for s in p["statics"]:
        kind, n = s.split(" ", 1)
        rep.count("statics")
        if kind != "freeze":
            rep.violation("static:" + n, "%s static is used: %s" % (kind, n))
    rep.samples = ["%s" % P.fns[r["f"]]["name"] for r in P.roots[:6]]
    rep.assumptions = ["rustc's unsafe_code lint and trait resolution are correct", "functions of core/alloc have no effects beyond memory"]


def direct(P, seen, i):
    """only uses from code that is not core/alloc/std itself count"""
    return any(P.fns[j]["krate"] not in ("core", "alloc", "std") and i in P.mentioned(P.fns[j]) for j in seen if P.fns[j]["body"])


def who(P, seen, i):
    for j in seen:
        f = P.fns[j]
        if f["body"] and i in P.mentioned(f):
            return f["path"]
    return "?"


def find_cell(P, t, seen):
    if t in seen:
        return None
    seen.add(t)
    ty = P.types[t]
    if isinstance(ty, str):
        return None
    k, v = next(iter(ty.items()))
    if k == "Adt":
        if CELLS.search(v["path"]):
            return v["path"]
        if v["krate"] in ("ntfs", "core", "alloc", "std", "arrayvec"):
            for a in v["args"]:
                r = find_cell(P, a, seen)
                if r:
                    return r
            if v["krate"] == "ntfs" or v["path"].startswith(("core::option", "std::option")):
                for x in v["variants"]:
                    for _, f in x["fields"]:
                        r = find_cell(P, f, seen)
                        if r:
                            return r
        return None
    if k in ("Tuple",):
        subs = v
    elif k in ("Ref", "Ptr"):
        subs = [v["to"]]
    elif k == "Array":
        subs = [v["elem"]]
    elif k == "Slice":
        subs = [v]
    elif k == "Closure":
        subs = v["upvars"]
    else:
        subs = []
    if k == "Ptr":
        return "raw pointer"
    for s in subs:
        r = find_cell(P, s, seen)
        if r:
            return r
    return None
