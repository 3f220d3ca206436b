"""ERR,Pfound,RBP against their definitions."""
from lib import metriccheck as MK
from lib.core import Check

QUICK = 1                                     # times the numbers of cases below
NEEDS = ("dataset", "scoring")
KINDS = ["ERR", "Pfound", "RBP"]

CHECKS = [
    Check("definition", MK.case(KINDS), MK.check, "three documents or more with different labels", 2500, 120000, shards=4),
    Check("scaled", MK.scaled(KINDS), MK.check_scaled, "labels of more than one value", 400, 20000),
    Check("vast", MK.vast(KINDS), MK.check_vast, "more than 5000 rows, labels of more than one value", 16, 600, shards=2),
    Check("grown", MK.grown(KINDS), MK.check_grown, "more than 100 rows, labels of more than one value", 1500, 20000, shards=6),
    Check("large", MK.case(KINDS, max_queries=3, max_docs=60), MK.check, "three documents or more with different labels", 400, 15000),
] + [Check(k.lower(), MK.case([k]), MK.check, "three documents or more with different labels", 400, 20000) for k in KINDS]
