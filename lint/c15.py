import spec


def check(rep):
    spec.decide(rep, "C15", "typed", jobs=5)
    rep.explain = "Every conversion of an attribute or attribute value into a typed value is interpreted abstractly for an arbitrary attribute; at every exit reached with a different type code, the wrong residency or too short a value the result must be an error."
