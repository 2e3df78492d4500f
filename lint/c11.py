import spec


def check(rep):
    spec.decide(rep, "C11", "layout")
    rep.explain = "Every getter of an on-disk structure is interpreted abstractly on an arbitrary structure; at every exit the result must be the little-endian field at the documented offset."
