import engine


def check(rep):
    engine.decide(rep, "C04", engine.is_c04)
    rep.explain = EXPLAIN


EXPLAIN = 'Every allocation size is an obligation: it must be bounded on all over-approximated states that reach it.'
