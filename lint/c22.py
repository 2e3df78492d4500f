import spec


def check(rep):
    spec.decide(rep, "C22", "runs", jobs=4)
    rep.explain = "NtfsDataRuns::next is interpreted abstractly for each of the 256 header bytes and arbitrary remaining bytes, cluster size and previous start; at every exit the decoded length, start, sparse marker and advanced offset must be the encoded ones, impossible encodings must be rejected and an error must leave the iterator as it was."
