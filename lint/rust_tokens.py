"""A small tokenizer for Rust source: drops comments and the contents of literals, keeps line numbers."""
import re

TOK = re.compile(r'''(?P<c>//[^\n]*|/\*.*?\*/)|(?P<s>b?c?"(?:\\.|[^"\\])*"|b?r(#*)".*?"\3)|(?P<l>'(?:\\[^\n]{1,8}?|[^'\\\n])')|(?P<t>'[A-Za-z_]\w*)|(?P<i>[A-Za-z_]\w*)|(?P<n>\d[\w.]*)|(?P<p>::|->|=>|&&|\|\||[^\s\w])''', re.S)


def tokens(text):
    line, pos, out = 1, 0, []
    for m in TOK.finditer(text):
        line += text.count("\n", pos, m.start())
        pos = m.start()
        k = m.lastgroup if m.lastgroup else "p"
        if m.group("c") is not None:
            continue
        if m.group("s") is not None:
            out.append(("str", m.group("s"), line))
        elif m.group("l") is not None:
            out.append(("lit", "'", line))
        elif m.group("t") is not None:
            out.append(("life", m.group("t"), line))
        elif m.group("i") is not None:
            out.append(("id", m.group("i"), line))
        elif m.group("n") is not None:
            out.append(("num", m.group("n"), line))
        else:
            out.append(("p", m.group(0), line))
    return out


def close(ts, i):
    """index of the bracket that closes the one at i"""
    d = 0
    for j in range(i, len(ts)):
        if ts[j][0] == "p":
            if ts[j][1] in "([{":
                d += 1
            elif ts[j][1] in ")]}":
                d -= 1
                if d == 0:
                    return j
    return len(ts) - 1


def attribute(ts, i):
    """(first token inside, end) if an attribute starts at i"""
    if ts[i][1] != "#" or i + 1 >= len(ts):
        return None
    j = i + 1
    if ts[j][1] == "!":
        j += 1
    if j < len(ts) and ts[j][1] == "[":
        return j + 1, close(ts, j)
    return None


def without_tests(ts):
    """drops items under #[cfg(test)] and #[test]"""
    out, i = [], 0
    while i < len(ts):
        a = attribute(ts, i)
        if a:
            inner = [t[1] for t in ts[a[0]:a[1]]]
            if inner[:4] == ["cfg", "(", "test", ")"] or inner == ["test"]:
                i = a[1] + 1
                # the rest of the item: up to its body or its semicolon
                while i < len(ts):
                    b = attribute(ts, i)
                    if b:
                        i = b[1] + 1
                        continue
                    if ts[i][1] == ";":
                        i += 1
                        break
                    if ts[i][1] == "{":
                        i = close(ts, i) + 1
                        break
                    i = close(ts, i) + 1 if ts[i][1] in "([" and ts[i][0] == "p" else i + 1
                continue
        out.append(ts[i])
        i += 1
    return out
