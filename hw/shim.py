"""Runs under PyPy.  Makes the pinned migen_src importable with the installed
nmigen 0.1rc1 *without touching /repo*: the sources were written for an older
nmigen in which Memory / SyncFIFO / SyncFIFOBuffered took (width, depth, ...)
positionally and SyncFIFO had a `replace` port (tied off when unused).
Only the constructor signatures are adapted, nothing of the behaviour."""
import sys
import warnings
warnings.simplefilter("ignore")


def install(src, replay=False):
    sys.path.insert(0, src)
    import nmigen.hdl.mem as mem
    import nmigen.lib.fifo as fifo
    from nmigen import Signal

    def positional(cls, names):
        orig = cls.__init__

        def __init__(self, *args, **kw):
            for n, a in zip(names, args):
                kw[n] = a
            orig(self, **kw)
            if cls is fifo.SyncFIFO and not hasattr(self, "replace"):
                self.replace = Signal(1, name="replace_unused")
        cls.__init__ = __init__
    positional(mem.Memory, ("width", "depth", "init"))
    positional(fifo.SyncFIFO, ("width", "depth", "fwft"))
    positional(fifo.SyncFIFOBuffered, ("width", "depth"))

    import clk_domains
    if replay:
        # one process toggles both clocks at once (clk "sync" is wired to clk
        # "full" by the source; pysim would otherwise skew them by a delta)
        def load_clk(m):
            if not clk_domains.accessed:
                m.domains += clk_domains.CORE
                m.domains += clk_domains.FULL
                clk_domains.accessed = True
        clk_domains.load_clk = load_clk
    return clk_domains
