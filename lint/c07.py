import engine


def check(rep):
    engine.decide(rep, "C07", engine.is_c07)
    rep.explain = EXPLAIN


EXPLAIN = "Every place where the reader can fail or where an error is made is a source: the abstract state carries the failure until the call ends. At every abstract exit of every public function that carries a failure, the result must be an error (Err, or Some(Err)). Only an interrupted read that is tried again, and the absence of an attribute, clear it."
