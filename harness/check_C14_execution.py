"""C14: execution commands do exactly what they promise."""
import execmodel

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("random trees, random sequences of execution commands and edits, each answered before the next is sent, while the tick "
        "thread runs under a random schedule (switches at any line of the code under test); distinct by schedule and by "
        "(command, state before, running, answer, state after)")
TIERS = {"quick": 1200, "thorough": 25000}
FLOORS = {"commands": 8000, "single_ticks": 800, "starts": 800, "stops": 250, "stops_waiting": 100, "shutdowns": 1500, "resets": 100,
          "edits": 1500, "ticks_in_runs": 300, "switches": 10000}


def case(ctx):
    execmodel.run(ctx, 0)
