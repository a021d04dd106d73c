from apirun import *


def run(rep):
    replay_plans(rep, "C19", ("pos",))
    random_runs(rep, "C19", 800 if rep.thorough else 100)
