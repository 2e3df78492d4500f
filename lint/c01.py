import engine


def check(rep):
    engine.decide(rep, "C01", engine.is_c01)
    rep.explain = EXPLAIN


EXPLAIN = 'Every operation that panics on some input (index, slice, unwrap, explicit panic, division, allocation-size conversion) is an obligation; the abstract interpreter computes an over-approximation of the states that reach it from any public entry point and checks that the failing case is excluded.'
