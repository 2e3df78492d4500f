import spec


def check(rep):
    spec.decide(rep, "C20", "time")
    rep.explain = "Every conversion of NtfsTime is interpreted abstractly for an arbitrary time; at every exit the linear relation between the two representations must hold, out-of-range times must leave through the error exit, and converting back must give the same value."
