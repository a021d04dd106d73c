from rnd import *

ASSUMPTIONS = ["modelType on objects that need none is ignored", "duplicate keys of a JSON object are out of scope"]


def run(rep):
    r = rep.tlc("Structure", parse=False)
    replay_all(rep, r.lines)
    random_stage(rep, 2000, "struct", bad=0.01, loose=0.05)
    random_stage(rep, 1000, "struct2", bad=0.05, loose=0.05)
