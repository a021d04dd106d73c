from rnd import *

ASSUMPTIONS = ["constraints the engine documents as unchecked are not demanded"]


def run(rep):
    r = rep.tlc("Scen04", parse=False)
    replay_all(rep, r.lines)
    random_stage(rep, 3000, "sme", loose=0.3)
