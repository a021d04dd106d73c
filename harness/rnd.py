"""Random documents, judged by the specification"""
from docs import *
from gen import random_docs, table


def classes(tab):
    els = sorted(tab["elements"])
    return ["Environment", "Submodel", "Submodel", "Submodel", "AssetAdministrationShell", "ConceptDescription"] + els


def random_stage(rep, n, salt, only=None, **kw):
    """n random documents (ten times as many in the thorough tier)"""
    tab = table(rep)
    if rep.thorough:
        n *= 10
    docs = random_docs(rep, only or classes(tab), n, f"{rep.seed}/{salt}", **kw)
    validate_docs(rep, docs)
