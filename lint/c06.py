import spec


def check(rep):
    spec.decide(rep, "C06", "records", jobs=5)
    rep.explain = "Record::fixup, NtfsFile::new and NtfsIndexRecord::new are interpreted abstractly for arbitrary record contents; at every exit a wrong signature, a torn block, an impossible update sequence or impossible sizes must have been rejected, and on success every sector end holds the saved bytes and every other byte is unchanged."
