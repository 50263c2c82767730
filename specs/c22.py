"""C22: soft switches and I/O dispatch of the simulator."""
from specs.common import *
from specs import simulator


def body(chk):
    par(chk, simulator.tasks22(chk))
    simulator.trust(chk)
    simulator.contracts(chk, "C22")


def run(tier):
    return execute("C22", tier, body, replay("simulator_fuzz.py", "C22"))
