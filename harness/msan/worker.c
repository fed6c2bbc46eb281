/* The library without assembly under MemorySanitizer, as a process of its own:
 * commands arrive on fd 0, answers leave on fd 1 (same wire format as the
 * 32-bit worker).  Built unoptimised, so that
 * no undefined value is folded away before it is used. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sanitizer/msan_interface.h>
#include <rfxcodec_encode.h>

static int ofd;
static void rd(void *p, size_t n)
{
    char *c = (char *) p;
    while (n)
    {
        ssize_t k = read(0, c, n);
        if (k <= 0) _exit(k == 0 ? 0 : 98);
        c += k;
        n -= k;
    }
}
static void wr(const void *p, size_t n)
{
    const char *c = (const char *) p;
    while (n)
    {
        ssize_t k = write(ofd, c, n);
        if (k <= 0) _exit(0);
        c += k;
        n -= k;
    }
}
static void reply(int r, int b, const void *p, unsigned n, unsigned bad)
{
    unsigned h[6] = {0x52504c59, (unsigned) r, (unsigned) b, n, bad, 0};
    wr(h, sizeof h);
    wr(p, n);
}
#define NH 64
static void *hnd[NH];
int main(void)
{
    /* what the library prints must not mix with the answers */
    ofd = dup(1);
    dup2(2, 1);
    for (;;)
    {
        unsigned c[16];
        rd(c, sizeof c);
        if (c[0] == 1)
        {
            int i;
            for (i = 0; i < NH && hnd[i]; i++) {}
            if (i == NH) _exit(97);
            hnd[i] = rfxcodec_encode_create((int) c[1], (int) c[2], (int) c[3], (int) c[4]);
            __msan_check_mem_is_initialized(&hnd[i], sizeof hnd[i]);
            reply(hnd[i] ? i : -1, 0, 0, 0, 0);
        }
        else if (c[0] == 2)
        {
            rfxcodec_encode_destroy(hnd[c[1]]);
            hnd[c[1]] = 0;
            reply(0, 0, 0, 0, 0);
        }
        else if (c[0] == 3)
        {
            /* encode: h cap npic picoff stride w h nrect ntile nquant flags prefill
             * every object on its own, the output undefined */
            unsigned cap = c[2], npic = c[3];
            struct rfx_rect *rc = malloc(c[8] * 16 + 1);
            struct rfx_tile *tl = malloc(c[9] * 28 + 1);
            char *qu = malloc(c[10] * 5 + 1), *pic = malloc(npic + 1), *cd = malloc(cap + 1);
            int cb = (int) cap, r;
            if (!rc || !tl || !qu || !pic || !cd) _exit(96);
            rd(rc, c[8] * 16);
            rd(tl, c[9] * 28);
            rd(qu, c[10] * 5);
            rd(pic, npic);
            r = rfxcodec_encode_ex(hnd[c[1]], cd, &cb, pic - (size_t) c[4], (int) c[6], (int) c[7], (int) c[5], rc, (int) c[8], tl, (int) c[9],
                                   c[10] ? qu : 0, (int) c[10], (int) c[11]);
            __msan_check_mem_is_initialized(&r, sizeof r);
            __msan_check_mem_is_initialized(&cb, sizeof cb);
            if (r < 0 || cb < 0 || (unsigned) cb > cap) reply(r, cb, 0, 0, 0);
            else
            {
                __msan_check_mem_is_initialized(cd, cb);
                reply(r, cb, cd, cb, 0);
            }
            free(rc); free(tl); free(qu); free(pic); free(cd);
        }
        else _exit(95);
    }
}
