"""drives one module of ./migen_src in nmigen's simulator (PyPy)"""
import sys, os, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "migen_src"))
import nmigen.hdl.mem as mem
import nmigen.lib.fifo as fifo
from nmigen import *
from nmigen.back import pysim
from nmigen.hdl.ir import Fragment


def _positional(cls, names):
    orig = cls.__init__

    def __init__(self, *args, **kw):
        kw.update(zip(names, args))
        orig(self, **kw)
        if cls is fifo.SyncFIFO and not hasattr(self, "replace"):
            self.replace = Signal(1)
    cls.__init__ = __init__


_positional(mem.Memory, ("width", "depth", "init"))
_positional(fifo.SyncFIFO, ("width", "depth", "fwft"))
_positional(fifo.SyncFIFOBuffered, ("width", "depth"))
import clk_domains


def _load(m):
    if not clk_domains.accessed:
        m.domains += clk_domains.CORE
        m.domains += clk_domains.FULL
        clk_domains.accessed = True


clk_domains.load_clk = _load
import constraints
CONS = constraints.Constraints()


class Top(Elaboratable):
    def __init__(self, subs, wire=None):
        self.subs, self.wire = subs, wire

    def elaborate(self, platform):
        m = Module()
        _load(m)
        for i, s in enumerate(self.subs):
            setattr(m.submodules, "u%d" % i, s)
        if self.wire:
            self.wire(m)
        return m


def simulate(subs, outs, fn, wire=None):
    """fn: generator; yields [(signal, value), ...] for a cycle, receives {signal: value} of outs in that cycle"""
    clk_domains.accessed = False
    clk_domains.FULL = ClockDomain("full")
    clk_domains.CORE = ClockDomain("sync")
    g = fn()
    top = Top(subs, wire)
    with pysim.Simulator(Fragment.get(top, None)) as sim:
        known = sim._signals

        def proc():
            try:
                inp = next(g)
                while True:
                    for s, v in inp:
                        if s in known:
                            yield s.eq(v)
                    yield pysim.Delay(1e-6)
                    row = {}
                    for n, s in outs.items():
                        row[n] = (yield s) if s in known else 0
                    clks = [c for c in (clk_domains.FULL.clk, clk_domains.CORE.clk) if c in known]
                    yield Cat(*clks).eq((1 << len(clks)) - 1)
                    yield pysim.Delay(1e-6)
                    yield Cat(*clks).eq(0)
                    yield pysim.Delay(1e-6)
                    inp = g.send(row)
            except StopIteration:
                return
        sim.add_process(proc())
        sim.run()
