"""C21: what NtfsGuid's Display writes, decided on the MIR: the format templates the compiler
produced are decoded and the written text is evaluated symbolically along the only path on which
no write fails."""
import json
import mir, vp

WANT = [("hex", ("data1",), 8), "-", ("hex", ("data2",), 4), "-", ("hex", ("data3",), 4), "-", ("hex", ("data4", 0), 2), ("hex", ("data4", 1), 2), "-"] + [("hex", ("data4", i), 2) for i in range(2, 8)]


class Unknown(Exception):
    pass


def template(bs):
    """literal strings and (flags, width, precision, argument) of a compiled format template"""
    i, out, arg = 0, [], 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n <= 0x80:
            if n == 0x80:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(bytes(bs[i:i + n]).decode())
            i += n
            continue
        if n & 0x30:
            raise Unknown("indirect width")
        fl, w, pr = 0x60000020, None, None
        if n & 1:
            fl = int.from_bytes(bytes(bs[i:i + 4]), "little")
            i += 4
        if n & 2:
            w = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 4:
            pr = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 8:
            arg = bs[i] | bs[i + 1] << 8
            i += 2
        out.append((fl, w, pr, arg))
        arg += 1


class Ev:
    def __init__(self, P, rep):
        self.P, self.rep, self.out, self.steps, self.lines = P, rep, [], 0, []

    def const(self, c):
        if not isinstance(c, dict):
            raise Unknown("constant %s" % c)
        k, v = next(iter(c.items()))
        if k == "Int":
            return ("int", int(v))
        if k == "RefTo":
            return ("ref", self.const(v[1]))
        if k == "Agg":
            return ("agg", v["variant"], [self.const(x) for x in v["fields"]])
        if k == "Zst":
            return ("agg", 0, [])
        if k in ("Bytes", "Str"):
            return ("ref", ("agg", 0, [("int", x) for x in v]))
        if k == "SliceOf":
            return ("ref", ("agg", 0, [self.const(x) for x in v[1]]))
        raise Unknown("constant " + k)

    def place(self, env, pl):
        v = env.get(pl["local"], ("unk", "uninitialised"))
        for e in pl["proj"]:
            if e == "Deref":
                if v[0] == "ref":
                    v = v[1]
                elif v[0] == "var":
                    v = env[v[1]]
                else:
                    return ("unk", "deref")
                continue
            k, x = next(iter(e.items()))
            if k == "Field":
                i, t = x
                if v[0] == "in":
                    a = self.P.adt(v[2])
                    if not a or len(a["variants"]) != 1:
                        return ("unk", "field")
                    f = a["variants"][0]["fields"][i]
                    v = ("in", v[1] + (f[0],), f[1])
                elif v[0] == "agg" and i < len(v[2]):
                    v = v[2][i]
                else:
                    return ("unk", "field")
            elif k in ("Index", "ConstIndex"):
                i = env.get(x, ("unk", "")) if k == "Index" else ("unk", "") if x["from_end"] else ("int", x["offset"])
                if i[0] != "int":
                    return ("unk", "index")
                if v[0] == "in":
                    t = self.P.ty(v[2])
                    if "Array" not in t:
                        return ("unk", "index")
                    v = ("in", v[1] + (i[1],), t["Array"]["elem"])
                elif v[0] == "agg" and i[1] < len(v[2]):
                    v = v[2][i[1]]
                else:
                    return ("unk", "index")
            elif k == "Downcast":
                pass
            else:
                return ("unk", k)
        return v

    def op(self, env, o):
        k, v = next(iter(o.items()))
        if k in ("Copy", "Move"):
            return self.place(env, v)
        if k == "Const":
            try:
                return self.const(v[1])
            except Unknown as e:
                return ("unk", str(e))
        return ("unk", k)

    def rvalue(self, env, r):
        k, v = next(iter(r.items())) if isinstance(r, dict) else (r, None)
        if k == "Use":
            return self.op(env, v)
        if k in ("Ref", "RawPtr"):
            return ("ref", self.place(env, v["place"]))
        if k == "Agg":
            return ("agg", v["variant"] or 0, [self.op(env, x) for x in v["ops"]])
        if k == "Discr":
            x = self.place(env, v[0])
            return ("int", x[1]) if x[0] == "agg" else ("unk", "discriminant")
        if k == "Bin":
            a, b = self.op(env, v["a"]), self.op(env, v["b"])
            if a[0] == b[0] == "int":
                x, y = a[1], b[1]
                f = {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y, "Add": x + y, "Sub": x - y}
                if v["op"].endswith("WithOverflow") and v["op"][:3] in f:
                    return ("agg", 0, [("int", f[v["op"][:3]]), ("int", 0)])
                if v["op"].replace("Unchecked", "") in f:
                    v = dict(v, op=v["op"].replace("Unchecked", ""))
                if v["op"] in f:
                    return ("int", int(f[v["op"]]))
            return ("unk", v["op"])
        if k == "Cast":
            y = self.op(env, v["op"])
            return y if y[0] == "ref" else ("unk", "cast")
        return ("unk", k)

    def emit(self, x, line):
        if isinstance(x, str) and self.out and isinstance(self.out[-1][0], str):
            self.out[-1] = (self.out[-1][0] + x, line)
        elif x != "":
            self.out.append((x, line))

    def width(self, t):
        t = self.P.ty(t)
        if isinstance(t, dict) and "Int" in t and not t["Int"]["signed"]:
            return t["Int"]["bits"]
        raise Unknown("formatted value is not an unsigned integer")

    def bytes(self, v):
        while v[0] == "ref":
            v = v[1]
        if v[0] != "agg" or any(x[0] != "int" for x in v[2]):
            raise Unknown("template")
        return [x[1] for x in v[2]]

    def call(self, fid, args, line, depth):
        f = self.P.fns[fid]
        n = f["path"]
        last = n.rsplit("::", 1)[1]
        if "Argument::" in n and n.startswith("core::fmt::rt"):
            v = args[0]
            while v[0] == "ref":
                v = v[1]
            return ("arg", last, v)
        if n.endswith("fmt::Arguments::<'a>::new"):
            arr = args[1]
            while arr[0] == "ref":
                arr = arr[1]
            if arr[0] != "agg":
                raise Unknown("arguments")
            return ("args", template(self.bytes(args[0])), arr[2])
        if n.endswith("fmt::Arguments::<'a>::from_str") or n.endswith("Arguments::<'_>::from_str"):
            return ("args", [bytes(self.bytes(args[0])).decode()], [])
        if last == "write_fmt":
            a = args[1]
            if a[0] != "args":
                raise Unknown("arguments")
            for p in a[1]:
                if isinstance(p, str):
                    self.emit(p, line)
                    continue
                fl, w, pr, i = p
                kind, v = a[2][i][1:]
                if kind not in ("new_upper_hex", "new_lower_hex"):
                    raise Unknown("formatted by " + kind)
                if v[0] != "in":
                    raise Unknown("formatted value")
                bits = self.width(v[2])
                zero = bool(fl & 1 << 24)
                # minimal number of digits; an alternate form or a sign adds characters
                ok = zero and w is not None and not fl & (1 << 23 | 1 << 21)
                digits = w if ok and w >= bits // 4 else None
                self.emit(("hex", v[1], digits, "zero-padded" if zero else "padded with blanks", w), line)
            return ("agg", 0, [("agg", 0, [])])
        if last == "write_str":
            self.emit(bytes(self.bytes(args[1])).decode(), line)
            return ("agg", 0, [("agg", 0, [])])
        if last == "branch" and args[0][0] == "agg":
            return ("agg", args[0][1], args[0][2])
        if f["krate"] == "ntfs" and f["body"] and depth < 4:
            return self.run(f, args, depth + 1)
        raise Unknown("call of " + n)

    def run(self, f, args, depth=0):
        b = f["body"]
        env = {i + 1: a for i, a in enumerate(args)}
        i = 0
        while True:
            self.steps += 1
            if self.steps > 3000:
                raise Unknown("loop")
            bl = b["blocks"][i]
            for s, line in bl["stmts"]:
                if "Assign" in s:
                    pl, r = s["Assign"]
                    if pl["proj"]:
                        raise Unknown("assignment to a part")
                    env[pl["local"]] = self.rvalue(env, r)
            t = bl["term"]
            if t == "Return":
                return env.get(0, ("unk", ""))
            k, v = next(iter(t.items())) if isinstance(t, dict) else (t, None)
            if k == "Goto":
                i = v
            elif k == "Assert":
                i = v["target"]
            elif k == "Drop":
                i = v["target"]
            elif k == "Call":
                if "Fn" not in v["callee"]:
                    raise Unknown("indirect call")
                env[v["dest"]["local"]] = self.call(v["callee"]["Fn"], [self.op(env, a) for a in v["args"]], bl.get("line", 0), depth)
                i = v["target"]
            elif k == "Switch":
                x = self.op(env, v["discr"])
                if x[0] != "int":
                    raise Unknown("branch on a value")
                i = next((d for c, d in v["targets"] if int(c) == x[1]), v["otherwise"])
            else:
                raise Unknown(k)


def check(rep):
    rep.explain = ("the format templates compiled into NtfsGuid's Display implementation are decoded and the text it writes is evaluated symbolically on the MIR; "
                   "every integer must be written in hexadecimal, zero-padded to twice its size in bytes, in the documented order and with the documented separators")
    prog, _ = vp.extract("std")
    P = mir.Prog(prog)
    fs = [f for f in P.fns if f["name"].endswith("NtfsGuid as std::fmt::Display>::fmt")]
    rep.floor("display_implementations", 0)
    for f in fs:
        rep.count("display_implementations")
        ev = Ev(P, rep)
        t = P.ty(f["body"]["locals"][1])["Ref"]["to"]
        try:
            ev.run(f, [("ref", ("in", (), t)), ("ref", ("unk", "formatter"))])
        except Unknown as e:
            rep.count("undecided")
            rep.samples = ["not decided: " + str(e)]
            if vp.os.environ.get("V"): print(e)
            # what was written so far is still compared
            compare(rep, f, ev.out, False)
            continue
        compare(rep, f, ev.out, True)
        rep.samples = [str(x[0]) for x in ev.out]
    rep.assumptions = ["core::fmt writes an unsigned integer in hexadecimal, padded as its template says"]


def compare(rep, f, out, whole):
    # literals may be cut anywhere: compare character by character, numbers as units
    def flat(xs):
        r = []
        for x, line in xs:
            r += [(c, line) for c in x] if isinstance(x, str) else [(x, line)]
        return r
    got, want = flat(out), flat([(w, 0) for w in WANT])
    for n, (w, _) in enumerate(want):
        if n >= len(got):
            if whole:
                rep.violation("guid:short", "%s ends before writing %s" % (f["name"], w))
            return
        g, line = got[n]
        rep.count("written_pieces")
        if isinstance(g, str) or isinstance(w, str):
            ok = g == w
        else:
            ok = g[1] == w[1] and g[2] == w[2]
        if not ok:
            rep.violation("guid:%d" % n, "%s at %s:%s writes %s where %s is due" % (f["name"], f["file"], line, say(g), say(w)))
            return
    if len(got) > len(want):
        rep.violation("guid:long", "%s writes more than a GUID: %s" % (f["name"], say(got[len(want)][0])))


def say(x):
    if isinstance(x, str):
        return repr(x)
    p = "self." + ".".join(str(i) for i in x[1])
    if len(x) == 3:
        return "%s as %d hexadecimal digits" % (p, x[2])
    return "%s in hexadecimal, %s to a width of %s" % (p, x[3], x[4])
