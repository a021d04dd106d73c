from rnd import *

ASSUMPTIONS = ["surrounding white space, year 0000 in gYear and numbers in the rounding band of the largest float may be accepted or rejected"]


def run(rep):
    r = rep.tlc("Values", parse=False)
    replay_all(rep, r.lines)
    random_stage(rep, 1000, "val", only=["Property", "Range", "Qualifier", "Extension", "Submodel"], loose=0.5)
