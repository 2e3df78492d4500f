import engine


def check(rep):
    engine.decide(rep, "C02", engine.is_c02)
    rep.explain = EXPLAIN


EXPLAIN = 'Every checked arithmetic operation, shift and narrowing cast is an obligation on the over-approximated states that reach it.'
