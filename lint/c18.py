import spec


def check(rep):
    spec.decide(rep, "C18", "tree")
    rep.explain = "The search is run abstractly for an arbitrary index, search function and earlier use of the finder, with a typestate automaton over the outcome of every comparison; going on, descending, finding and reporting absence are allowed only in the states of a B-tree search."
