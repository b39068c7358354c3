"""C02: flow control nodes do what their documentation says, on every tree and history."""
import flowmodel as fm

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "random trees of flow-control nodes over scripted leaves, random operation "
    "sequences, every operation compared with an independent reference model "
    "(result, state of every node, order of leaf calls); a behaviour is distinct "
    "if (tree shape, operation, states of all nodes afterwards) is new"
)
TIERS = {"quick": 2400, "thorough": 60000}
FLOORS = {"comparisons": 2000, "errors": 20, "kind_EnumSwitch": 20, "kind_NameSwitch": 20,
          "kind_MemoryFallback": 20, "kind_ParallelFailureTolerance": 20}


def case(ctx):
    err = ctx.rng.choice([0, 0, 0.02])
    fm.run_program(ctx, fm.FLOW, [], 0.0, err, 40, max_depth=ctx.rng.choice([1, 2, 3]),
                   root_kinds=fm.FLOW)
