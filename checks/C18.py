import cprog, hw
INC = [hw.REPO + "/liblj92"]


def br(xs):
    return "{%s}" % ",".join(map(str, xs))


def table(lens, vals):
    return dict(TBITS=br([lens.count(i) for i in range(1, 17)]), TVALS=br(vals), MAXLEN=max(lens))


# code lengths (ascending) and the categories they stand for
T3 = table([1, 2, 3], [1, 0, 3])                 # 0, 10, 110
T4 = table([2, 2, 3, 3, 4], [0, 2, 5, 1, 4])     # incomplete, all ones unused
T16 = table([2, 2, 2, 3], [16, 0, 15, 9])        # large categories; 16 carries no extra bits
NEXTDIFF = {"nextdiff.0": 4, "nextdiff.1": 4}


def job(name, w, h, c, pred, bits, tab, ns, wlen=None, skip=0, lin=0, **kw):
    d = dict(W=w, H=h, C=c, BITS=bits, PRED=pred, WLEN=wlen or w * c, SKIP=skip, LINN=lin, NS=ns, NIN=ns + 2 * lin, **tab)
    return dict(name="%s_p%d_%dx%dx%d_%db" % (name, pred, w, h, c, ns), src="dec.c", libs=["lj.c"], defs=d, covers=["end"], unwind=HINTS, **kw)


HINTS = {"find.0": 40, "parseImage.0": 5, "parseHuff.0": 17, "parseHuff.1": 17, "parseHuff.2": 17, "parseHuff.3": 70, "nextdiff.0": 4, "nextdiff.1": 4,
         "put_header.0": 17, "put_header.1": 10, "put_header.2": 5, "put_header.3": 5, "get_inputs.0": 80}
HINTS.update({"harness.%d" % i: 40 for i in range(9)})
HINTS.update({"parsePred6.%d" % i: 10 for i in range(3)})
HINTS.update({"parseScan.%d" % i: 10 for i in range(3)})


def main(r):
    jobs = []
    for p in range(1, 8):
        jobs.append(job("rows", 2, 3, 1, p, 4, T3, 3))
        jobs.append(job("comp", 2, 2, 2, p, 4, T3, 3))
        jobs.append(job("wide", 3, 2, 1, p, 12, T4, 4))
        jobs.append(job("full", 2, 2, 1, p, 16, T16, 6))
        jobs.append(job("comp3", 2, 2, 3, p, 8, T3, 4, tier="thorough"))
        jobs.append(job("long", 3, 3, 1, p, 8, T4, 5, tier="thorough"))
        jobs.append(job("full", 2, 2, 1, p, 16, T16, 9, tier="thorough"))
    for p in (1, 6, 7):
        jobs.append(job("step1", 2, 2, 1, p, 4, T3, 2, wlen=1, skip=1))
        jobs.append(job("step3", 3, 2, 1, p, 4, T3, 2, wlen=2, skip=2))
        jobs.append(job("lin", 2, 2, 1, p, 3, T3, 2, lin=8))
    jobs.append(job("step3", 2, 2, 2, 4, 4, T3, 2, wlen=3, skip=1))
    for w, h in ((1, 1), (1, 3), (3, 1)):
        for p in (1, 6):
            jobs.append(job("thin", w, h, 1, p, 8, T4, 2 if w * h > 1 else 1))
    cprog.run(r, jobs, INC)
TECHNIQUE = "SAT-based bounded model checking of the C source (CBMC, kissat) against a reference T.81 decoder"
META = dict(explanation="the real lj92.c compiled by goto-cc and executed symbolically through lj92_open, lj92_decode and lj92_close on streams with a fixed header and arbitrary entropy-coded bytes; a reference decoder written from ITU-T T.81 (bit-serial Huffman decoding, category 16, predictors 1-7) decides which byte strings are valid scans and what every sample of the target must be; every memory access is checked as well",
            bounds="images 1x1, 1x3, 3x1, 2x2, 3x2, 2x3 with one component and 2x2 with two (2x2x3 and 3x3 thorough); all predictors; precision 3, 4, 8, 12, 16; three Huffman tables (3, 5 and 4 codes, one incomplete, one with category 16); all scans of 1-6 bytes (9 thorough) with stuffing; writeLength 1, 2, 3 or a row with skip 0-2; all linearisation tables of 8 entries. Loop unwinding is extended until CBMC's unwinding assertions hold")
NOTE = "Solver verdict over all values within: " + META["bounds"] + ". Trusted: CBMC's C semantics (checked by native replay of every witness under ASan) and kissat."
