from rnd import *

ASSUMPTIONS = ["the mixed-case tag En may count as English or not"]


def run(rep):
    r = rep.tlc("Scen05", parse=False)
    replay_all(rep, r.lines)
    random_stage(rep, 2000, "cd", only=["ConceptDescription", "ConceptDescription", "DataSpecificationIec61360", "EmbeddedDataSpecification", "AdministrativeInformation", "Environment", "Submodel"], loose=0.3)
