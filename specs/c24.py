"""C24: network adapter of the simulator."""
from specs.common import *
from specs import simulator


def body(chk):
    par(chk, simulator.tasks24(chk))
    simulator.trust(chk)
    simulator.contracts(chk, "C24")


def run(tier):
    return execute("C24", tier, body, replay("simulator_fuzz.py", "C24"))
