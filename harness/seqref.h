/* Reference decoder of file order sequences (after the digest): nibbles, high
 * one first; bit 3 = another nibble follows; three bits each, low ones first.
 * Numbers: run length, gap, run length, ...; zero = the next number is an
 * absolute position and is followed by a run length. */
static int seq_decode(const unsigned char *s, size_t n, size_t files, size_t *out, size_t max, size_t *outn)
{
    size_t at = 0, end = 2 * n, pos = 0, k = 0;
    enum { RUN, GAP, ABS } want = RUN;
    *outn = 0;
    while (at < end) {
        size_t v = 0, bits = 0;
        bool more = true;
        while (more) {
            if (at == end) return DRPM_ERR_FORMAT;      /* unfinished number */
            unsigned char b = at % 2 ? s[at / 2] & 15 : s[at / 2] >> 4;
            at++;
            if (bits + 3 > 63) return DRPM_ERR_FORMAT;  /* no position is that large */
            v |= (size_t)(b & 7) << bits;
            bits += 3;
            more = b & 8;
        }
        if (want == ABS) { pos = v; want = RUN; continue; }
        if (v == 0) { want = ABS; continue; }
        if (want == GAP) { pos += v; want = RUN; continue; }
        while (v--) {
            if (pos >= files || k >= max) return DRPM_ERR_FORMAT;   /* no such file */
            out[k++] = pos++;
        }
        want = GAP;
    }
    *outn = k;
    return DRPM_ERR_OK;
}
