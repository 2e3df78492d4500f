import engine


def check(rep):
    engine.decide(rep, "C14", engine.is_c14)
    rep.explain = EXPLAIN


EXPLAIN = "The shared reader's position is an abstract typestate: unknown on entry of every API call, known after an absolute seek, advanced by reads. A read in the unknown state is a violation."
