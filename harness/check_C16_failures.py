"""C16: a failing tree ends in the error state and can be recovered."""
import execmodel

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("as C14, with nodes that answer any call with an error and raise exceptions in setup and tick; distinct by schedule "
        "and by (command, state before, running, answer, state after)")
TIERS = {"quick": 1200, "thorough": 25000}
FLOORS = {"odd_rates": 100, "commands": 8000, "failed_ticks": 120, "runs_error": 200, "failed_shutdowns": 80, "shutdowns": 1000}


def case(ctx):
    execmodel.run(ctx, ctx.rng.choice([1, 1, 3]))
