// UTF-8 by table 3-7 of Unicode 3.9 (RFC 3629)
static int in(int c, int lo, int hi) { return (c >= lo) & (c <= hi); }

// number of bytes of the well-formed sequence starting at p (n available); 0 = ill-formed
static int seq(const unsigned char *p, size_t n) {
    int a = p[0], b = n > 1 ? p[1] : 0, c = n > 2 ? p[2] : 0, d = n > 3 ? p[3] : 0;
    if (a <= 0x7f) return 1;
    if (in(a, 0xc2, 0xdf)) return in(b, 0x80, 0xbf) ? 2 : 0;
    if (in(a, 0xe0, 0xef)) {
        int lo = a == 0xe0 ? 0xa0 : 0x80, hi = a == 0xed ? 0x9f : 0xbf;
        return in(b, lo, hi) & in(c, 0x80, 0xbf) ? 3 : 0;
    }
    if (in(a, 0xf0, 0xf4)) {
        int lo = a == 0xf0 ? 0x90 : 0x80, hi = a == 0xf4 ? 0x8f : 0xbf;
        return in(b, lo, hi) & in(c, 0x80, 0xbf) & in(d, 0x80, 0xbf) ? 4 : 0;
    }
    return 0;
}
static inline int utf8_ok(const unsigned char *p, size_t n) { size_t i = 0; while (i < n) { int k = seq(p + i, n - i); if (!k || i + k > n) return 0; i += k; } return 1; }
