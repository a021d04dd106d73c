from apirun import *


def run(rep):
    replay_plans(rep, "C20", ("setup", "neg", "pos"))
    random_runs(rep, "C20", 800 if rep.thorough else 100)
