from apirun import *


def run(rep):
    replay_plans(rep, "C18", ("neg",))
    random_runs(rep, "C18", 800 if rep.thorough else 100)
