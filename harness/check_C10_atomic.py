"""C10: see editmodel.py."""
import editmodel

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("random trees edited by random sequences of edit requests (valid, hostile and impossible ones); a behaviour is distinct by "
        "(operation, verdict, reason, size and shape of the tree)")
TIERS = {"quick": 600, "thorough": 60000}
FLOORS = {"ops": 5000}


def case(ctx):
    editmodel.run(ctx, "atomic")
