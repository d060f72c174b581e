// Text that the probe tracker prints, computed again by the monitors.
#ifndef VH_PROBE_H
#define VH_PROBE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static unsigned probe_random(unsigned* s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }

// One line, without its end: tag, number, and filler up to about maxlen characters
static int probe_line(char* out, char tag, unsigned number, int maxlen) {
    unsigned s = number * 2654435761u + tag; int n = sprintf(out, "%c%07u:", tag, number), i, len;
    probe_random(&s);
    len = maxlen > 0 ? (int) (probe_random(&s) % (unsigned) (maxlen + 1)) : 0;
    for (i = 0; i < len; i++) { unsigned r = probe_random(&s) % 70; out[n++] = r < 26 ? 'a' + r : r < 52 ? 'A' + r - 26 : r < 62 ? '0' + r - 52 : " @:-=\"\\'"[r - 62]; }
    out[n] = 0;
    return n;
}
#endif
