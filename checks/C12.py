def main(r):
    jobs = []
    for br, n, tn in ((False, 22, 32), (True, 20, 30)):
        c = [(["bad_read", "bad_status", "bad_port"], [(lambda t, b=b: {"B": b}) for b in range(32)])]
        jobs.append(dict(name="dma_bridge" if br else "dma", harness="dmaaxi", frames=n, tframes=tn, cfg=dict(bridge=br), cubes=c))
    r.hw(jobs)
META = dict(explanation="the real DMA register interface, alone and behind the real id-adapting bridge, driven by an arbitrary single-outstanding master; one arbitrary bit of one arbitrary register is shadowed and compared on every read and at the ports",
            bounds="20-22 cycles from reset (30-32 thorough), i.e. four back-to-back transactions; every bit of registers 0-11; addresses limited to the register window and undecoded ones; register indices 12-15 and aliases above bit 10 are outside")
