import spec


def check(rep):
    spec.decide(rep, "C12", "read", jobs=4)
    rep.explain = "Every read implementation is interpreted abstractly for an arbitrary state, buffer and reader; loops are summarised by invariants. At every exit the delivered count, the advance of the position, the bounds and (for single runs and resident values) the delivered bytes must be as the read contract says."
