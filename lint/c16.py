import spec


def check(rep):
    spec.decide(rep, "C16", "lookup")
    rep.explain = "Record numbers and attribute identities are relations over the abstract exits of the lookup functions; the loops over attributes run with a typestate automaton that follows which properties of the current attribute were compared with what is asked for, and with which outcome."
