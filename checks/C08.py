def track(frames, first=1):
    return [(lambda t, T=T: {"track": int(t == T)}) for T in range(first, frames - 1)]


def main(r):
    n = 22 if r.thorough else 16
    r.hw([dict(name="stuff", harness="stuff", cfg={}, frames=n, cubes=[(["bad_byte"], track(n))])])
META = dict(explanation='fix_0xff feeding fix_0xff2 as in the integration, free words, gaps, end and back-pressure; one arbitrary byte of the stuffed stream is followed',
            bounds='16 cycles from reset (22 thorough)')
