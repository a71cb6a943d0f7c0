def main(r):
    J = [dict(name="writer_16", what="writer", data_c=16, n=44, tn=76), dict(name="writer_4", what="writer", data_c=4, n=32, tn=44),
         dict(name="reader_16", what="reader", data_c=16, n=44, tn=76), dict(name="reader_4", what="reader", data_c=4, n=32, tn=44),
         dict(name="reader_fifo", what="readfifo", data_c=16, n=44, tn=64)]
    r.hw([dict(name=j["name"], harness="axihp", frames=j["n"], tframes=j["tn"], cfg=dict(what=j["what"], data_c=j["data_c"])) for j in J])
META = dict(explanation="the real burst writer and reader with the real address generator (the reader also into the real bus FIFO) against an arbitrary AXI memory: arbitrary ready/valid timing, up to 8 bursts in flight, arbitrary data and responses",
            bounds="44 cycles from reset with 16-word bursts (76 thorough), 32 cycles with 4-word bursts (44 thorough); one start address, enable never withdrawn")
