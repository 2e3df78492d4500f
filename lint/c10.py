"""C10: independence of the platform."""
import os, re
import engine, vp
from rust_tokens import attribute, tokens, without_tests

# ways to look at bytes in the order of the host, or in an order that is not NTFS's
HOST = {"NativeEndian", "BigEndian", "NetworkEndian", "from_ne_bytes", "from_be_bytes", "read_ne", "read_be", "read_ne_args", "read_be_args", "is_big", "is_big_if", "NATIVE", "transmute", "transmute_copy", "align_to", "align_to_mut", "from_raw_parts", "bytemuck", "read_unaligned", "from_be"}
TARGET = {"target_endian", "target_pointer_width", "target_arch", "target_os", "target_family", "target_env", "target_has_atomic", "unix", "windows", "debug_assertions", "overflow_checks", "panic"}
ITEM = {"pub", "impl", "use", "mod", "fn", "const", "static", "struct", "enum", "trait", "type", "extern", "unsafe", "macro_rules", "async"}


def witness(rep):
    """a crate without standard library that links the library"""
    src = os.path.join(vp.VERIF, "nostd")
    if vp.REPO != "/repo":
        alt = os.path.join(vp.BUILD, "nostd-alt")
        vp.shutil.rmtree(alt, ignore_errors=True)
        vp.shutil.copytree(src, alt)
        c = open(os.path.join(alt, "Cargo.toml")).read().replace('"/repo"', '"%s"' % vp.REPO)
        open(os.path.join(alt, "Cargo.toml"), "w").write(c)
        src = alt
    target = os.path.join(vp.BUILD, "nostd-target")
    with open(os.path.join(vp.BUILD, "lock-nostdw"), "w") as l:
        vp.fcntl.flock(l, vp.fcntl.LOCK_EX)
        vp.forget(target, "ntfs", "nostdwitness")
        rc, o = vp.run(["cargo", "+nightly", "check", "--offline", "--color=never", "--target-dir", target], cwd=src, ok=False, env={"RUSTFLAGS": "-Awarnings"})
    rep.count("nostd_witness_builds")
    if rc == 0:
        return
    if re.search(r"E0152|duplicate lang item|which `ntfs` depends on", o):
        rep.violation("nostd", "without its default features the library still brings in the standard library: " + re.sub(r"\s+", " ", o[-500:]))
    elif re.search(r"could not compile `ntfs`", o):
        rep.violation("nostd", "the library does not build without its default features: " + re.sub(r"\s+", " ", o[-500:]))
    else:
        raise vp.BuildFailed(o)


def scan(rep, path):
    rel = os.path.relpath(path, vp.REPO)
    ts = without_tests(tokens(open(path).read()))
    rep.count("source_files")
    rep.count("tokens", len(ts))
    i = 0
    while i < len(ts):
        k, t, line = ts[i]
        a = attribute(ts, i)
        if a:
            inner = [x[1] for x in ts[a[0]:a[1]]]
            ids = {x[1] for x in ts[a[0]:a[1]] if x[0] == "id"}
            if inner[0] in ("cfg", "cfg_attr"):
                rep.count("conditional_compilation")
                bad = ids & TARGET
                if bad and inner[0] == "cfg":
                    rep.violation("cfg:%s:%s" % (rel, ",".join(sorted(bad))), "%s:%d: code depends on the target (%s)" % (rel, line, ", ".join(sorted(bad))))
                if inner[0] == "cfg" and "feature" in ids:
                    j = a[1] + 1
                    while j < len(ts) and attribute(ts, j):
                        j = attribute(ts, j)[1] + 1
                    nxt = ts[j][1] if j < len(ts) else ""
                    if nxt not in ITEM:
                        rep.violation("cfg:%s:statement" % rel, "%s:%d: a part of a function or of a type depends on a feature" % (rel, line))
                    elif "not" in ids and nxt not in ("use", "extern", "mod") and not (nxt == "pub" and ts[j + 1][1] in ("use", "mod")):
                        rep.violation("cfg:%s:alternative" % rel, "%s:%d: an item is replaced by another one depending on a feature" % (rel, line))
            elif inner[0] in ("br", "binread", "brw", "binrw") and ids & {"big", "is_big", "is_little"}:
                rep.violation("endian:%s" % rel, "%s:%d: a structure is not read as little-endian" % (rel, line))
            elif inner[0] in ("br", "binread", "brw", "binrw"):
                rep.count("binrw_attributes")
            i = a[1] + 1
            continue
        if k == "id" and t in HOST and not (i and ts[i - 1][1] == "fn"):
            rep.violation("host:%s:%s" % (rel, t), "%s:%d: %s looks at bytes in an order or layout that is not NTFS's on every target" % (rel, line, t))
        if k == "id" and t in ("usize", "isize") and [x[1] for x in ts[i + 1:i + 3]] in (["::", "from_le_bytes"], ["::", "from_ne_bytes"], ["::", "read_le"], ["::", "read_options"]):
            rep.violation("width:%s" % rel, "%s:%d: a value of the machine's word size is read from the image" % (rel, line))
        if k == "id" and t == "cfg" and i + 1 < len(ts) and ts[i + 1][1] == "!":
            rep.violation("cfg:%s:macro" % rel, "%s:%d: the code branches on its configuration" % (rel, line))
        if k == "id" and t == "LittleEndian":
            rep.count("little_endian_reads")
        i += 1


def check(rep):
    witness(rep)
    for root, ds, fs in os.walk(os.path.join(vp.REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                scan(rep, os.path.join(root, f))
    rep.floor("source_files", 20)
    rep.floor("little_endian_reads", 30)
    # the arithmetic, the casts and the slices on a target with 32-bit words
    engine.word_size(rep, "C10", engine.is_c10)
    rep.explain = ("a no_std crate that links the library is compiled as a witness; the source tokens are checked for host-endian, word-sized or target-dependent reads and for functions that differ by feature; "
                   "the abstract interpreter is run with 32-bit words and no arithmetic operation, cast, index or slice may fail there that is safe with 64-bit words")
