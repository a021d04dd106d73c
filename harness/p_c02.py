from rnd import *

ASSUMPTIONS = ["white space around dates and similar, and case variants of grandfathered language tags, may be accepted or rejected"]


def run(rep):
    r = rep.tlc("Strings", parse=False)
    replay_all(rep, r.lines)
    random_stage(rep, 1000, "str", bad=0.02, loose=0.3)
