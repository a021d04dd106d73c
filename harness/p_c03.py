from rnd import *

ASSUMPTIONS = ["a key value behind a list with a sign or surrounding white space may be accepted or rejected"]


def run(rep):
    r = rep.tlc("Refs", parse=False)
    replay_all(rep, r.lines)
    random_stage(rep, 2000, "ref", loose=0.4, depth=3)
