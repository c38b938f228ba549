/* Drives the heatshrink decoder: reads a script, prints what happened.
 *   S             new session      (everything is forgotten)
 *   a B W L       a decoder with input buffer B, window W, lookahead L
 *   R             reset
 *   s HEX         sink
 *   p N           poll with room for N bytes
 *   f             finish
 *   D HEX         the stream that is sunk with
 *   n N           sink (at most) the next N bytes of the stream: what is not
 *                 accepted is offered again by the next one
 *   Q N M         sink N, poll M until all of the stream is in, poll the rest
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "heatshrink_decoder.h"

static char line[1 << 20];
static uint8_t buf[1 << 19];
static uint8_t out[1 << 17];

static uint8_t stream[1 << 19];
static size_t len, pos;
static size_t got;      /* by the last poll */

static size_t do_sink(heatshrink_decoder *hsd, const uint8_t *data, size_t n, int show)
{
    size_t k = 99999, i;
    /* the exact size, so that a sanitizer sees a read beyond */
    uint8_t *in = malloc(n + 1);
    memcpy(in, data, n);
    int res = heatshrink_decoder_sink(hsd, in, n, &k);
    free(in);
    printf("{\"e\":\"s\",\"res\":%d,\"k\":%lu", res, (unsigned long)k);
    if (show) {
        printf(",\"data\":\"");
        for (i = 0; i < n; i++) printf("%02x", data[i]);
        printf("\"");
    }
    printf("}\n");
    return k <= n ? k : n;
}

static int do_poll(heatshrink_decoder *hsd, size_t n)
{
    size_t k = 99999, i;
    uint8_t *o = malloc(n + 1);
    o[n] = 0x5a;
    int res = heatshrink_decoder_poll(hsd, o, n, &k);
    printf("{\"e\":\"p\",\"n\":%lu,\"res\":%d,\"k\":%lu,\"w\":\"", (unsigned long)n, res, (unsigned long)k);
    for (i = 0; res >= 0 && k <= n && i < k; i++) {
        printf("%02x", o[i]);
    }
    printf("\",\"over\":%s}\n", o[n] == 0x5a ? "false" : "true");
    free(o);
    got = k;
    return res;
}

int main(int argc, char **argv)
{
    int limit = argc > 1 ? atoi(argv[1]) : 10;
    heatshrink_decoder *hsd = NULL;
#if !HEATSHRINK_DYNAMIC_ALLOC
    static heatshrink_decoder dec;
#endif
    while (fgets(line, sizeof(line), stdin)) {
        if (line[0] == 'S') {
#if HEATSHRINK_DYNAMIC_ALLOC
            if (hsd != NULL) {
                heatshrink_decoder_free(hsd);
            }
#endif
            hsd = NULL;
            printf("{\"e\":\"session\"}\n");
            alarm(limit);
        } else if (line[0] == 'a') {
            int b, w, l;
            sscanf(line + 1, "%d %d %d", &b, &w, &l);
#if HEATSHRINK_DYNAMIC_ALLOC
            hsd = heatshrink_decoder_alloc(b, w, l);
#else
            memset(&dec, 0xa5, sizeof(dec));
            hsd = &dec;
            heatshrink_decoder_reset(hsd);
#endif
            printf("{\"e\":\"a\",\"ok\":%s}\n", hsd ? "true" : "false");
        } else if (line[0] == 'R') {
            heatshrink_decoder_reset(hsd);
            printf("{\"e\":\"R\"}\n");
        } else if (line[0] == 's') {
            size_t n = 0, i, k = 99999;
            char *p = line + 2;
            while (p[0] > ' ' && p[1] > ' ') {
                unsigned v;
                sscanf(p, "%2x", &v);
                buf[n++] = v;
                p += 2;
            }
            (void)i; (void)k;
            do_sink(hsd, buf, n, 0);
        } else if (line[0] == 'p') {
            do_poll(hsd, strtoul(line + 1, NULL, 0));
        } else if (line[0] == 'D') {
            char *p = line + 2;
            len = pos = 0;
            while (p[0] > ' ' && p[1] > ' ') {
                unsigned v;
                sscanf(p, "%2x", &v);
                stream[len++] = v;
                p += 2;
            }
        } else if (line[0] == 'n') {
            size_t n = strtoul(line + 1, NULL, 0);
            if (n > len - pos) n = len - pos;
            pos += do_sink(hsd, stream + pos, n, 1);
        } else if (line[0] == 'Q') {
            unsigned n, m, c, idle;
            sscanf(line + 1, "%u %u", &n, &m);
            for (c = idle = 0; pos < len && c < 100000 && idle < 4; c++) {
                size_t k = do_sink(hsd, stream + pos, n > len - pos ? len - pos : n, 1);
                pos += k;
                idle = do_poll(hsd, m) < 0 || (k == 0 && got == 0) ? idle + 1 : 0;
            }
            for (c = idle = 0; c < 100000 && idle < 4; c++) {
                int res = do_poll(hsd, m);
                if (res == 0) break;
                idle = res < 0 || got == 0 ? idle + 1 : 0;
            }
        } else if (line[0] == 'f') {
            printf("{\"e\":\"f\",\"res\":%d}\n", heatshrink_decoder_finish(hsd));
        }
        fflush(stdout);
    }
    alarm(0);
    printf("{\"e\":\"end\"}\n");
    return 0;
}
