import spec


def check(rep):
    spec.decide(rep, "C17", "tree")
    rep.explain = "The in-order walk over an index B-tree is run abstractly with a typestate automaton that follows every entry read, its flags, its subnode, the stack of nodes and the stack of saved entries; states in different automaton states are never joined. What each step of the node iterators returns is decided as relations over the abstract exits."
