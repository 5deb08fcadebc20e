/* A client of the C API that only knows the header. It replays life cycles of the whole API on images whose
 * expected results were dumped by the monitors (from the Rust API), in buffers of exactly the documented size.
 *
 *   client <dump> <start> <stride> <end> <budget seconds>
 *
 * With -DCOUNT every allocation of the process is counted: after the first (warming) round, a life cycle has to
 * leave exactly as many live allocations as there were before it.
 */
#include "image-palette-recoloring.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <pthread.h>

#ifdef COUNT
static long live;
static unsigned long total;
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static void *cnt(void *p) { if (p) { __atomic_fetch_add(&live, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&total, 1, __ATOMIC_RELAXED); } return p; }
void *malloc(size_t n) { return cnt(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return cnt(__libc_calloc(n, m)); }
void free(void *p) { if (p) __atomic_fetch_sub(&live, 1, __ATOMIC_RELAXED); __libc_free(p); }
void *realloc(void *p, size_t n) {
    void *q = __libc_realloc(p, n);
    if (!p) return cnt(q);
    if (!q && !n) __atomic_fetch_sub(&live, 1, __ATOMIC_RELAXED);
    return q;
}
void *memalign(size_t a, size_t n) { return cnt(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return cnt(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = cnt(__libc_memalign(a, n)); if (!q) return 12; *p = q; return 0; }
#endif

struct tcase {
    uint32_t w, h;
    uint8_t min, max, npal, weights, decomposed, npalette;
    double bound;
    const uint8_t *img, *pal, *recol, *palette, *gray, *rec;
    uint64_t sig;
};

static int cur_viol;
static long cur;
static long evals;
static void viol(const char *msg, long a, long b) {
    if (cur_viol++ < 4) printf("V %ld %s (%ld, %ld)\n", cur, msg, a, b);
}
#define CHK(ok, msg, a, b) do { evals++; if (!(ok)) viol(msg, (long)(a), (long)(b)); } while (0)

static uint8_t *dup(const uint8_t *p, size_t n) {
    uint8_t *q = malloc(n ? n : 1);
    memcpy(q, p, n);
    return q;
}

static unsigned long n_palette, n_weights, n_dec, n_null, n_pixels;

static void life(const struct tcase *c, unsigned order) {
    size_t npx = (size_t)c->w * c->h, i, k;
    uint8_t *img = dup(c->img, 3 * npx);
    uint8_t *count = malloc(1);
    uint8_t *p = compute_palette(c->w, c->h, img, c->min, c->max, c->bound, count);
    CHK((p == NULL) == (c->npalette == 0), "compute_palette returned NULL / something", p != NULL, c->npalette);
    if (p) {
        CHK(*count == c->npalette, "compute_palette's number of colours", *count, c->npalette);
        if (*count == c->npalette) CHK(!memcmp(p, c->palette, 3 * *count), "compute_palette's colours", 0, 0);
        free_computed_palette(p, *count);
        n_palette++;
    } else n_null++;
    free(count);
    image_weights *iw = create_image_weights(c->w, c->h, img);
    memset(img, 0xEE, 3 * npx);
    free(img);
    CHK((iw != NULL) == c->weights, "create_image_weights returned NULL / something", iw != NULL, c->weights);
    if (!iw) { n_null++; return; }
    n_weights++;
    /* the same weights can be used for several palettes */
    decomposed_image *d[2] = {NULL, NULL};
    for (k = 0; k < 1 + (order & 1); k++) {
        uint8_t *pal = dup(c->pal, 3 * c->npal);
        d[k] = create_decomposed_image(iw, c->npal, pal);
        memset(pal, 0xEE, 3 * c->npal);
        free(pal);
        CHK((d[k] != NULL) == c->decomposed, "create_decomposed_image returned NULL / something", d[k] != NULL, c->decomposed);
        if (!d[k]) n_null++;
    }
    if (order & 2) { free_image_weights(iw); iw = NULL; }
    if (d[0] && d[1] && (order & 4)) { free_decomposed_image(d[0]); d[0] = d[1]; d[1] = NULL; }
    if (d[0] && c->decomposed) {
        n_dec++;
        CHK(get_decomposed_image_width(d[0]) == c->w, "width", get_decomposed_image_width(d[0]), c->w);
        CHK(get_decomposed_image_height(d[0]) == c->h, "height", get_decomposed_image_height(d[0]), c->h);
        CHK(get_decomposed_image_num_channels(d[0]) == c->npal, "channels", get_decomposed_image_num_channels(d[0]), c->npal);
        for (i = 0; i < (size_t)c->npal + 3; i++) {
            uint8_t ch = i < c->npal ? i : i == c->npal ? c->npal : i == (size_t)c->npal + 1 ? 254 : 255;
            uint8_t *out = malloc(npx), r;
            memset(out, 0xA5, npx);
            r = grayscale_image_channel(d[0], ch, out);
            CHK(r == (ch < c->npal), "grayscale_image_channel's result", ch, r);
            if (ch < c->npal) CHK(!memcmp(out, c->gray + ch * npx, npx), "grayscale_image_channel's pixels", ch, 0);
            else {
                size_t j, same = 0;
                for (j = 0; j < npx; j++) same += out[j] == 0xA5;
                CHK(same == npx, "grayscale_image_channel wrote to the buffer for a channel out of bounds", ch, npx - same);
            }
            free(out);
            n_pixels += npx;
        }
        uint8_t *recol = dup(c->recol, 3 * c->npal), *out = malloc(3 * npx), r;
        r = reconstruct_image(d[0], recol, out);
        CHK(r == 1, "reconstruct_image's result", r, 1);
        CHK(!memcmp(out, c->rec, 3 * npx), "reconstruct_image's pixels", 0, 0);
        free(out);
        free(recol);
    }
    for (k = 0; k < 2; k++) if (d[k]) free_decomposed_image(d[k]);
    if (iw) free_image_weights(iw);
}

struct job { const struct tcase *c; unsigned order; };
static void *in_thread(void *j) { life(((struct job *)j)->c, ((struct job *)j)->order); return NULL; }

static const uint8_t *take(const uint8_t **p, size_t n) { const uint8_t *q = *p; *p += n; return q; }

int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "rb");
    if (argc < 6 || !f) return 3;
    fseek(f, 0, SEEK_END);
    long size = ftell(f);
    rewind(f);
    uint8_t *data = malloc(size);
    if (fread(data, 1, size, f) != (size_t)size) return 3;
    fclose(f);
    const uint8_t *p = data;
    uint32_t n;
    memcpy(&n, take(&p, 4), 4);
    struct tcase *cases = calloc(n + 1, sizeof *cases);
    for (uint32_t i = 0; i < n; i++) {
        struct tcase *c = &cases[i];
        const uint8_t *from = p, *b;
        memcpy(&c->w, take(&p, 4), 4);
        memcpy(&c->h, take(&p, 4), 4);
        b = take(&p, 8);
        c->min = b[0]; c->max = b[1]; c->npal = b[2]; c->weights = b[3]; c->decomposed = b[4]; c->npalette = b[5];
        memcpy(&c->bound, take(&p, 8), 8);
        size_t npx = (size_t)c->w * c->h;
        c->img = take(&p, 3 * npx);
        c->pal = take(&p, 3 * c->npal);
        c->recol = take(&p, 3 * c->npal);
        c->palette = take(&p, 3 * c->npalette);
        if (c->decomposed) { c->gray = take(&p, c->npal * npx); c->rec = take(&p, 3 * npx); }
        c->sig = 0xcbf29ce484222325ull;
        for (; from < p; from++) c->sig = (c->sig ^ *from) * 0x100000001b3ull;
    }
    if (p != data + size) return 3;
    long start = atol(argv[2]), stride = atol(argv[3]), end = atol(argv[4]);
    double budget = atof(argv[5]);
    time_t t0 = time(NULL);
    static char outbuf[1 << 16];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    unsigned long rounds = 0, counted = 0;
    for (cur = start; cur < end && cur < (long)n && time(NULL) - t0 < budget; cur += stride) {
        const struct tcase *c = &cases[cur];
        cur_viol = 0;
        evals = 0;
        printf("B %ld\n", cur);
        fflush(stdout);
        unsigned order = c->sig >> 20 & 7, r;
#ifdef COUNT
        long before = 0;
        for (r = 0; r < 4; r++) {
            if (r == 2) before = live;
            life(c, order);
            rounds++;
        }
        counted++;
        CHK(live == before, "allocations stay after everything was freed", live - before, 2);
#else
        for (r = 0; r < 1; r++, rounds++) life(c, order);
        if (cur % 4 == 0) {
            /* also off the main thread */
            pthread_t t;
            struct job j = {c, order ^ 1};
            pthread_create(&t, NULL, in_thread, &j);
            pthread_join(t, NULL);
            rounds++;
        }
#endif
        printf("D %ld %ld 1 %016llx %ux%u, %u colours, min %u max %u bound %g, order %u\n", cur, evals,
               (unsigned long long)c->sig, c->w, c->h, c->npal, c->min, c->max, c->bound, order);
        fflush(stdout);
    }
    printf("C client_life_cycles %lu\nC client_palettes %lu\nC client_weights %lu\nC client_decomposed %lu\nC client_null_results %lu\n"
           "C client_gray_pixels %lu\n", rounds, n_palette, n_weights, n_dec, n_null, n_pixels);
#ifdef COUNT
    printf("C client_life_cycles_counted %lu\nC client_allocations %lu\n", counted * 2, total);
#endif
    printf("END\n");
    fflush(stdout);
    free(cases);
    free(data);
    return 0;
}
