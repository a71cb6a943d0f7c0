/* lj92_open / lj92_decode on a valid stream: concrete headers, arbitrary entropy-coded bytes.
   W H C BITS PRED: image; WLEN SKIP: target layout; LINN: linearisation table size (0: none); NS: scan bytes;
   TBITS, TVALS: the Huffman table (16 counts, values) */
#define NV (sizeof(tvals))
#include "common.h"
static const u8 tbits[16] = TBITS, tvals[] = TVALS;
#define N (W * H * C)
#define HDR (2 + 2 + 19 + (int)NV + 2 + 8 + 3 * C + 2 + 6 + 2 * C)
u8 data[HDR + NS + 2];
u16 lin[LINN + 1];
u16 out[N + SKIP * (N / WLEN + 1) + 2];
u16 want[N];
typedef unsigned __int128 big;

static int put_header(void) {
    int k = 0, i;
    data[k++] = 0xff; data[k++] = 0xd8;
    data[k++] = 0xff; data[k++] = 0xc4; data[k++] = 0; data[k++] = 19 + NV; data[k++] = 0;
    for (i = 0; i < 16; i++) data[k++] = tbits[i];
    for (i = 0; i < NV; i++) data[k++] = tvals[i];
    data[k++] = 0xff; data[k++] = 0xc3; data[k++] = 0; data[k++] = 8 + 3 * C; data[k++] = BITS;
    data[k++] = 0; data[k++] = H; data[k++] = 0; data[k++] = W; data[k++] = C;
    for (i = 0; i < C; i++) { data[k++] = i; data[k++] = 0x11; data[k++] = 0; }
    data[k++] = 0xff; data[k++] = 0xda; data[k++] = 0; data[k++] = 6 + 2 * C; data[k++] = C;
    for (i = 0; i < C; i++) { data[k++] = i; data[k++] = 0; }
    data[k++] = PRED; data[k++] = 0; data[k++] = 0;
    return k;
}

void harness(void) {
    get_inputs();
    int base = put_header(), i, j;
    big acc = 0;
    int total = 0;
    for (i = 0; i < NS; i++) {            /* every 0xFF is followed by a stuffed zero */
        if (i > 0 && in[i - 1] == 0xff) ASSUME(in[i] == 0);
        else { acc |= (big)in[i] << (120 - total); total += 8; }
        data[base + i] = in[i];
    }
    ASSUME(in[NS - 1] != 0xff);
    data[base + NS] = 0xff;
    data[base + NS + 1] = 0xd9;
    for (i = 0; i < LINN; i++) lin[i] = in[NS + 2 * i] << 8 | in[NS + 2 * i + 1];
    /* reference decoder (ITU-T T.81 F.2.2, H.2) */
    int used = 0;
    for (i = 0; i < N; i++) {
        int code = 0, first = 0, k = 0, t = -1, len;
        for (len = 1; len <= MAXLEN && t < 0; len++) {
            code = (int)((acc >> (128 - len)) & ((1 << len) - 1));
            int d = code - first;
            if (d < tbits[len - 1]) { for (j = 0; j < tbits[len - 1]; j++) if (j == d) t = tvals[k + j]; used += len; acc <<= len; }
            k += tbits[len - 1];
            first = (first + tbits[len - 1]) << 1;
        }
        ASSUME(t >= 0);
        int e = t == 16 ? 0 : t, v = e ? (int)((acc >> 112) >> (16 - e)) : 0;
        int diff = t == 16 ? 32768 : e == 0 ? 0 : v < (1 << (e - 1)) ? v - (1 << e) + 1 : v;
        acc <<= e;
        used += e;
        int c = i % C, x = i / C % W, y = i / C / W, p;
        int ra = x ? want[i - C] : 0, rb = y ? want[i - W * C] : 0, rc = x && y ? want[i - W * C - C] : 0;
        if (!x && !y) p = 1 << (BITS - 1);
        else if (!y) p = ra;
        else if (!x) p = rb;
        else p = PRED == 1 ? ra : PRED == 2 ? rb : PRED == 3 ? rc : PRED == 4 ? ra + rb - rc :
                 PRED == 5 ? ra + ((rb - rc) >> 1) : PRED == 6 ? rb + ((ra - rc) >> 1) : (ra + rb) >> 1;
        want[i] = (u16)(p + diff);
        if (LINN) ASSUME(want[i] < LINN);
    }
    ASSUME(used <= total && total - used < 8);
    for (i = 0; i < sizeof(out) / 2; i++) out[i] = 0x5aa5;

    lj92 h;
    int w, hh, bd, cc;
    int r = lj92_open(&h, data, base + NS + 2, &w, &hh, &bd, &cc);
    CHECK("opens", r == LJ92_ERROR_NONE);
    if (r) return;
    CHECK("dimensions", w == W && hh == H && bd == BITS && cc == C);
    r = lj92_decode(h, out + 1, WLEN, SKIP, LINN ? lin : NULL, LINN);
    CHECK("decodes", r == LJ92_ERROR_NONE);
    for (i = 0, j = 1; i < N; i++) {
        CHECK("sample", out[j] == (LINN ? lin[want[i]] : want[i]));
        out[j++] = 0x5aa5;
        if ((i + 1) % WLEN == 0) j += SKIP;
    }
    for (i = 0; i < sizeof(out) / 2; i++) CHECK("gap", out[i] == 0x5aa5);
    COVER("end", used == total);
    lj92_close(h);
}
