def main(r):
    n = 44 if r.thorough else 30
    r.hw([dict(name="markers", harness="markers", cfg={}, frames=n)])
META = dict(explanation='the real marker stage with free payload, gaps, back-pressure, end and forced end; reference framing counters and one followed payload word',
            bounds='30 cycles from reset (44 thorough): start marker, payload, end marker and back-pressure in any mix')
