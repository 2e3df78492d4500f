"""Queries over the extracted program (resolved, monomorphic MIR)."""
import re


class Prog:
    def __init__(self, p):
        self.p = p
        self.types = p["types"]
        self.fns = p["fns"]
        self.roots = p["roots"]
        self._callers = None

    def ty(self, i):
        return self.types[i]

    def adt(self, i):
        t = self.types[i]
        return t["Adt"] if isinstance(t, dict) and "Adt" in t else None

    def tyname(self, i, depth=0):
        t = self.types[i]
        if isinstance(t, str):
            return t
        k, v = next(iter(t.items()))
        if depth > 4:
            return "_"
        if k == "Adt":
            a = v["args"]
            return v["path"] + ("<%s>" % ",".join(self.tyname(x, depth + 1) for x in a) if a else "")
        if k == "Int":
            return ("i" if v["signed"] else "u") + ("size" if v["ptr"] else str(v["bits"]))
        if k == "Ref":
            return ("&mut " if v["m"] else "&") + self.tyname(v["to"], depth + 1)
        if k == "Ptr":
            return "*" + self.tyname(v["to"], depth + 1)
        if k == "Tuple":
            return "(%s)" % ",".join(self.tyname(x, depth + 1) for x in v)
        if k == "Slice":
            return "[%s]" % self.tyname(v, depth + 1)
        if k == "Array":
            return "[%s;%d]" % (self.tyname(v["elem"], depth + 1), v["len"])
        if k == "Closure":
            return v["name"]
        if k == "FnDef":
            return "fn " + v["name"]
        return k

    def callees(self, f):
        """(block index, callee id or None, args, dest, target)"""
        b = f["body"]
        if not b:
            return
        for i, bl in enumerate(b["blocks"]):
            t = bl["term"]
            if isinstance(t, dict) and "Call" in t:
                c = t["Call"]
                cal = c["callee"]
                yield i, cal.get("Fn"), c["args"], c["dest"], c["target"]

    def reachable(self, starts, skip=lambda f: False):
        seen, todo = set(), list(starts)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            f = self.fns[i]
            if skip(f) or not f["body"]:
                continue
            for n in self.mentioned(f):
                if n not in seen:
                    todo.append(n)
        return seen

    def mentioned(self, f):
        """ids of the functions a body calls or takes as a value"""
        out = set()

        def op(o):
            if isinstance(o, dict) and "Const" in o:
                c = o["Const"]
                t = self.types[c[0]]
                if isinstance(t, dict) and "FnDef" in t and t["FnDef"].get("f") is not None:
                    out.add(t["FnDef"]["f"])
                const(c[1])

        def const(c):
            if isinstance(c, dict):
                if "Fn" in c:
                    out.add(c["Fn"])
                for v in c.values():
                    walk(v)

        def walk(v):
            if isinstance(v, dict):
                if "Const" in v:
                    op(v)
                elif "Fn" in v and isinstance(v["Fn"], int):
                    out.add(v["Fn"])
                else:
                    for x in v.values():
                        walk(x)
            elif isinstance(v, list):
                for x in v:
                    walk(x)
        for bl in f["body"]["blocks"]:
            walk(bl["stmts"])
            walk(bl["term"])
        return out


def succs(term):
    if isinstance(term, str):
        return []
    k, v = next(iter(term.items()))
    if k == "Goto":
        return [v]
    if k == "Switch":
        return [t for _, t in v["targets"]] + [v["otherwise"]]
    if k in ("Drop", "Assert"):
        return [v["target"]]
    if k == "Call":
        return [v["target"]] if v["target"] is not None else []
    return []


def short(path):
    return re.sub(r"<[^<>]*>", "", path)
