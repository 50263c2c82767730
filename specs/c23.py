"""C23: memory manager of the simulator."""
from specs.common import *
from specs import simulator


def body(chk):
    par(chk, simulator.tasks23(chk))
    simulator.trust(chk)
    for f in ("memory.MemoryManager.__init__", "memory.MemoryManager.enable", "memory.MemoryManager.RegisterRegion",
              "memory.MemoryManager.DenyWritesToRegion", "memory.MemoryManager.MaybeInterceptExecution",
              "memory.MemoryRegion.__init__", "py65.memory.ObservableMemory.*"):
        chk.under_contract(f)


def run(tier):
    return execute("C23", tier, body, replay("simulator_fuzz.py", "C23"))
