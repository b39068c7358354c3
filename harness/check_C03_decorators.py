"""C03: decorators do what their documentation says, on every tree and history."""
import flowmodel as fm

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "random trees of decorators (with sequences and fallbacks between them) over "
    "scripted leaves on a virtual clock, random operation sequences, every "
    "operation compared with an independent reference model; a behaviour is "
    "distinct if (tree shape, operation, states of all nodes afterwards) is new"
)
TIERS = {"quick": 3200, "thorough": 80000}
FLOORS = {"comparisons": 2000, "errors": 20, **{"kind_" + k.__name__[1:]: 20 for k in fm.DECO}}


def case(ctx):
    err = ctx.rng.choice([0, 0, 0.02])
    fm.run_program(ctx, [fm.MSequence, fm.MFallback], fm.DECO, 0.75, err, 40,
                   max_depth=ctx.rng.choice([1, 2, 3, 4]), root_kinds=fm.DECO)
