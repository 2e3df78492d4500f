import spec


def check(rep):
    spec.decide(rep, "C03", "geometry")
    rep.explain = "Ntfs::new is interpreted abstractly on an arbitrary boot sector; at every exit that returns a volume the geometry relations must follow from the exit's constraints."
