"""PyPy entry: elab.py rtlil SRC HARNESS CFGJSON OUT.il OUT.json
              elab.py replay SRC HARNESS CFGJSON TRACE.json OUT.json"""
import sys, os, json
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
import shim


def load(src, harness, cfg, replay):
    cd = shim.install(src, replay)
    import importlib
    import hbase
    mod = importlib.import_module("harness." + harness)
    h = hbase.Harness()
    mod.build(h, cfg)
    h.finish()
    return cd, h


def main():
    mode, src, harness, cfgj = sys.argv[1:5]
    cfg = json.loads(cfgj)
    cd, h = load(src, harness, cfg, mode != "rtlil")
    if mode == "rtlil":
        from nmigen.back import rtlil
        ports = [s for _, s in h.inputs] + [s for _, s in h.outputs] + [cd.FULL.clk]
        text = rtlil.convert(h, ports=ports)
        open(sys.argv[5], "w").write(text)
        mods = sorted(os.path.basename(m.__file__) for m in list(sys.modules.values())
                      if getattr(m, "__file__", None) and os.path.dirname(os.path.abspath(m.__file__)) == os.path.abspath(src))
        json.dump({"modules": ["migen_src/" + x for x in mods if x not in ("constraints.py",)],
                   "inputs": [(n, s.name, len(s)) for n, s in h.inputs],
                   "outputs": [(n, s.name, len(s)) for n, s in h.outputs]},
                  open(sys.argv[6], "w"))
    else:
        from nmigen.back import pysim
        from nmigen import Cat
        from nmigen.hdl.ir import Fragment
        trace = json.load(open(sys.argv[5]))
        out = []
        frag = Fragment.get(h, None)
        with pysim.Simulator(frag) as sim:
            known = sim._signals
            # nmigen 0.1rc1 lists a synchronous reset among the clocks (a rising reset would clock the domain a second time)
            for d in sim._domains:
                if d.rst is not None and not getattr(d, "async_reset", False):
                    sim._domain_triggers[sim._signal_slots[d.rst]] = None

            def proc():
                for step in trace:
                    for n, s in h.inputs:
                        if s in known:
                            yield s.eq(step.get(n, 0))
                    yield pysim.Delay(1e-6)
                    row = {}
                    for n, s in h.outputs:
                        row[n] = yield s
                    out.append(row)
                    yield Cat(cd.FULL.clk, cd.CORE.clk).eq(3)
                    yield pysim.Delay(1e-6)
                    yield Cat(cd.FULL.clk, cd.CORE.clk).eq(0)
                    yield pysim.Delay(1e-6)
            sim.add_process(proc())
            sim.run()
        json.dump(out, open(sys.argv[6], "w"))


main()
