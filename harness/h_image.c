/* F12: image mode (ftwin -I).  Part one replaces the picture library's reading and distance functions by tables, so that
 * every similarity relation between a few files can be enumerated; part two uses real pictures and the real library. */
#include "tree.h"
#include <gd.h>
#include <puzzle.h>

static int fake, NI;
#define MAXI 600
static double D[MAXI][MAXI];
static unsigned bad;            /* unreadable pictures: the first 32 */
static unsigned char BAD[MAXI]; /* and any */
static char iname[MAXI][MAXP];
static int isbad(int i) { return BAD[i] || (i < 32 && bad >> i & 1); }

static int idx_of(const char *p)
{
    int i;
    p = t_norm(p);
    for (i = 0; i < NI; i++) if (!strcmp(iname[i], p)) return i;
    return -1;
}
int puzzle_fill_cvec_from_file(PuzzleContext *c, PuzzleCvec *v, const char *p)
{
    static int (*real)(PuzzleContext *, PuzzleCvec *, const char *);
    int i;
    if (!real) real = (int (*)(PuzzleContext *, PuzzleCvec *, const char *)) dlsym(RTLD_NEXT, "puzzle_fill_cvec_from_file");
    if (!fake) return real(c, v, p);
    i = idx_of(p);
    if (i < 0 || isbad(i)) return -1;
    v->sizeof_vec = 544;
    v->vec = calloc(1, 544);
    v->vec[0] = (signed char) (1 + (i & 63));
    v->vec[1] = (signed char) (i >> 6);
    return 0;
}
static int vid(const PuzzleCvec *a)
{
    int i;
    if (!a->vec || a->sizeof_vec != 544 || a->vec[0] < 1 || a->vec[0] > 64 || a->vec[1] < 0) return -1;
    i = a->vec[0] - 1 + a->vec[1] * 64;
    return i < NI ? i : -1;
}
double puzzle_vector_normalized_distance(PuzzleContext *c, const PuzzleCvec *a, const PuzzleCvec *b, int fix)
{
    static double (*real)(PuzzleContext *, const PuzzleCvec *, const PuzzleCvec *, int);
    if (!real) real = (double (*)(PuzzleContext *, const PuzzleCvec *, const PuzzleCvec *, int)) dlsym(RTLD_NEXT, "puzzle_vector_normalized_distance");
    if (!fake) return real(c, a, b, fix);
    if (vid(a) < 0 || vid(b) < 0) { fprintf(stderr, "distance of an unread picture"); fflush(NULL); _exit(97); }
    return D[vid(a)][vid(b)];
}

static const double TH[] = { 0, PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD, PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD, 0.5, PUZZLE_CVEC_SIMILARITY_THRESHOLD, PUZZLE_CVEC_SIMILARITY_HIGH_THRESHOLD };
/* iname/D/bad describe the pictures; inscope: mask of the first 32 */
static const char *const *pre_opt; static int npre;     /* words before -I */
static char seenp[MAXI][MAXI];
static int in_scope(unsigned m, int i) { return i >= 32 || (m >> i & 1); }
static void run_judge(int t, char sep, const char *const *extra, int nx, const char *const *args, int na, unsigned inscope)
{
    const char *av[40];
    static const char *const tn[] = { "", "1", "2", "3", "4", "5" };
    double th = t ? TH[t] : TH[1];
    char sb[2] = { sep, 0 };
    int n = 0, i, j;
    uint64_t h = 0;
    for (i = 0; i < NI; i++) memset(seenp[i], 0, (size_t) NI);
    for (i = 0; i < npre; i++) av[n++] = pre_opt[i];
    av[n++] = "-I";
    if (t) { av[n++] = "-T"; av[n++] = tn[t]; }
    if (sep) { av[n++] = "-s"; av[n++] = sb; }
    for (i = 0; i < nx; i++) av[n++] = extra[i];
    for (i = 0; i < na; i++) av[n++] = args[i];
    t_run(av, n);
    g_parse_text(sep ? sep : '\n', 0);
    for (i = 0; i < NG; i++) {
        int a = idx_of(G[i].m[0].path);
        if (G[i].n < 2) mc_fail(NULL, "ftwin%s reports the group of one picture %s", CMD, G[i].m[0].path);
        for (j = 0; j < G[i].n; j++) {
            int b = idx_of(G[i].m[j].path);
            if (b < 0 || !in_scope(inscope, b)) { mc_fail(NULL, "ftwin%s lists %s, which is not in scope", CMD, G[i].m[j].path); return; }
            if (isbad(b)) mc_fail(NULL, "ftwin%s lists %s, which is not a readable picture", CMD, G[i].m[j].path);
            if (!j) continue;
            if (a == b) mc_fail(NULL, "ftwin%s lists %s as similar to itself", CMD, G[i].m[j].path);
            if (D[a][b] >= th) mc_fail(NULL, "ftwin%s lists %s and %s as similar, their distance is %g", CMD, G[i].m[0].path, G[i].m[j].path, D[a][b]);
            if (seenp[a][b]) mc_fail(NULL, "ftwin%s reports the pair %s, %s twice", CMD, G[i].m[0].path, G[i].m[j].path);
            seenp[a][b] = seenp[b][a] = 1;
        }
    }
    for (i = 0; i < NI; i++) for (j = 0; j < i; j++) {
        int sim = !isbad(i) && !isbad(j) && in_scope(inscope, i) && in_scope(inscope, j) && D[i][j] < th;
        if (sim && !seenp[i][j]) mc_fail(NULL, "ftwin%s does not report the similar pictures %s and %s (distance %g)", CMD, iname[i], iname[j], D[i][j]);
        h = h * (NI > 11 ? 1099511628211ULL : 2) + (uint64_t) sim;
    }
    mc_trace(1);
    mc_outcome(mc_hash(OUT, NOUT, h));
    mc_state(h * 64 + bad);
}
static const unsigned char XY[] = "not really a picture";
static void fam_graphs(void)
{
    static const char *const nm[] = { "t/a.png", "t/s/b.jpg", "t/c.GIF", "t/d.jpeg", "t/s/u/e.PNG" };
    int n, i, j, t, order;
    fake = 1;
    for (n = 1; n <= 5; n++) {
        long v, N = 1;
        int pairs = n * (n - 1) / 2, base = n <= 4 ? 3 : 2;
        unsigned b;
        for (i = 0; i < pairs; i++) N *= base;
        for (v = 0; v < N; v++) {
            if (!mc_sel()) continue;
            NI = n;
            t_clear();
            for (i = 0; i < n; i++) { snprintf(iname[i], MAXP, "%s", nm[i]); t_file(XY, (size_t) (n <= 3 ? i % 2 : 5), nm[i]); }
            t_build();
            for (b = 0; b < (1u << n); b++) for (t = 0; t < 6; t++) {
                const char *args[] = { "t" };
                long w = v;
                double th = t ? TH[t] : TH[1];
                if (n >= 4 && b && t != 1 + (int) (b % 5) && !mc_thorough) continue;
                if (n == 5 && b && __builtin_popcount(b) != 1 && !mc_thorough) continue;
                if (n == 5 && !b && t != 1 && !mc_thorough) continue;
                for (i = 0; i < n; i++) for (j = 0; j <= i; j++) {
                    double d = i == j ? 0 : w % base == 0 ? 0.01 : w % base == 1 ? th : 0.9;
                    if (i != j) w /= base;
                    D[i][j] = D[j][i] = d;
                }
                bad = b;
                mc_desc("%d pictures, relation %ld, unreadable %x;", n, v, b);
                t_dirorder = 1 + (int) (v & 1);
                run_judge(t, t == 2 ? ',' : 0, NULL, 0, args, 1, (1u << n) - 1);
            }
        }
    }
    /* listing orders of 5 pictures, chains and stars */
    for (order = 0; order < 2; order++) for (n = 0; n < 32; n++) {
        const char *args[] = { "t" };
        if (!mc_sel()) continue;
        NI = 5;
        t_clear();
        for (i = 0; i < 5; i++) { snprintf(iname[i], MAXP, "%s", nm[i]); t_file(XY, 3, nm[i]); }
        t_build();
        for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) D[i][j] = i == j ? 0 : abs(i - j) == 1 ? 0.1 : 0.25 * abs(i - j);
        bad = (unsigned) n;
        t_dirorder = 1 + order;
        for (t = 0; t < 6; t++) { mc_desc("chain, unreadable %x;", n); run_judge(t, 0, NULL, 0, args, 1, 31); }
    }
    t_dirorder = 0;
    /* which files count as pictures, and arguments */
    {
        static const char *const names[] = { "t/a.png", "t/b.PNG", "t/c.jpg", "t/d.JPeg", "t/e.gif", "t/f.txt", "t/gpng", "t/h.png.bak", "t/.i.png", "t/s/j.jpeg", "t/k.jpe", "t/l.png" };
        static const unsigned isimg = 0x001 | 0x002 | 0x004 | 0x008 | 0x010 | 0x200 | 0x800;
        unsigned m;
        for (m = 0; m < 4096; m += mc_thorough ? 1 : 5) for (order = 0; order < 4; order++) {
            const char *args[] = { "t" };
            const char *ex[3];
            unsigned scope = m & isimg;
            int nx = 0;
            if (!mc_sel()) continue;
            t_clear();
            NI = 12;
            for (i = 0; i < 12; i++) { snprintf(iname[i], MAXP, "%s", names[i]); if (m >> i & 1) t_file(XY, 3, names[i]); }
            t_build();
            for (i = 0; i < 12; i++) for (j = 0; j < 12; j++) D[i][j] = i == j ? 0 : 0.1;
            bad = 0;
            if (order & 1) { ex[nx++] = "-a"; if (m >> 8 & 1) scope |= 0x100; }
            if (order & 2) { ex[nx++] = "-R"; scope &= ~0x200u; }
            mc_desc("names %03x;", m);
            run_judge(1, 0, ex, nx, args, 1, scope);
        }
    }
    /* many pictures */
    {
        static const int ns[] = { 12, 31, 64, 65, 127, 130, 255, 256, 257, 300, 520 };
        int q, r, u;
        for (q = 0; q < 11; q++) for (r = 0; r < 7; r++) for (u = 0; u < 4; u++) for (order = 0; order < 3; order++) {
            const char *args[] = { "t" };
            if (!mc_thorough && ns[q] > 130 && order != (r + u) % 3) continue;
            if (!mc_sel()) continue;
            NI = ns[q];
            t_clear();
            for (i = 0; i < NI; i++) { snprintf(iname[i], MAXP, order == 2 ? "t/d%d/%03d.png" : "t/%.0d%03d.png", order == 2 ? i % 7 : 0, i); t_file(XY, (size_t) (i % 5 + 1), iname[i]); }
            t_build();
            for (i = 0; i < NI; i++) for (j = 0; j < NI; j++) {
                int sim = r == 0 ? 0 : r == 1 ? abs(i - j) == 1 : r == 2 ? i / 3 == j / 3 : r == 3 ? i + j == NI - 1 : r == 4 ? i % 10 == j % 10 : r == 5 ? i == NI / 2 || j == NI / 2 : NI <= 130 || i % 8 == j % 8;
                D[i][j] = i == j ? 0 : sim ? 0.1 : 0.9;
            }
            bad = 0;
            for (i = 0; i < NI; i++) BAD[i] = u == 1 ? i % 3 == 1 : u == 2 ? i > 0 && i < NI - 1 : u == 3 ? i == 0 || i == NI / 2 : 0;
            t_dirorder = 1 + (order & 1);
            mc_desc("%d pictures, pattern %d, unreadable pattern %d;", NI, r, u);
            run_judge(0, 0, NULL, 0, args, 1, ~0u);
        }
        memset(BAD, 0, sizeof BAD);
        t_dirorder = 0;
    }
    /* every pair of other options, before and after -I */
    {
        static const char *const names[] = { "t/a.png", "t/b.PNG", "t/c.jpg", "t/.h.png", "t/s/e.gif", "t/s/u/f.jpeg", "t/l.png", "t/skip.gif", "t/.d/x.png", "t/g.txt" };
        static const struct { const char *w[2]; int k; } op[] = { { { "-a" }, 'a' }, { { "-R" }, 'R' }, { { "-r" }, 'r' }, { { "-f" }, 'f' }, { { "-c" }, 0 }, { { "-o" }, 0 }, { { "-n" }, 0 }, { { "-v" }, 0 }, { { "-d" }, 0 }, { { "-j", "2" }, 0 }, { { "-p", "t/s" }, 0 }, { { "-x", "0" }, 0 },
            { { "-e", "SKIP" }, 'e' }, { { "-e", "^t/s/u" }, 'E' }, { { "-i", "a.png" }, 'i' }, { { "-m", "4" }, 'm' }, { { "-M", "5" }, 'M' } };
        int x, y, pos, o = (int) (sizeof op / sizeof *op);
        for (x = 0; x < o; x++) for (y = 0; y < o; y++) for (pos = 0; pos < 4; pos++) {
            const char *w[2][4], *args[] = { "t" };
            int nw[2] = { 0, 0 }, z, R = 0;
            unsigned scope = 0x1ff, hid = 0x108, lnk = 0x40;
            if (!mc_sel()) continue;
            t_clear();
            NI = 10;
            for (i = 0; i < 10; i++) { snprintf(iname[i], MAXP, "%s", names[i]); if (i == 6) t_link("a.png", names[i]); else t_file(XY, (size_t) (2 + i % 5), names[i]); }
            t_build();
            for (i = 0; i < 10; i++) for (j = 0; j < 10; j++) D[i][j] = i == j ? 0 : 0.1;
            bad = 0;
            for (z = 0; z < 2; z++) {
                int q = z ? y : x, at = pos >> z & 1;
                if (z && x == y) break;
                w[at][nw[at]++] = op[q].w[0];
                if (op[q].w[1]) w[at][nw[at]++] = op[q].w[1];
            }
            for (z = 0; z < 2; z++) for (i = 0; i < 2; i++) {           /* the words before -I come first */
                int q = i ? y : x;
                if ((pos >> i & 1) != z || (i && x == y)) continue;
                switch (op[q].k) {
                case 'a': hid = 0; break;
                case 'R': R = 1; break;
                case 'r': R = 0; break;
                case 'f': lnk = 0; break;
                case 'e': scope &= ~0x80u; break;
                case 'E': scope &= ~0x20u; break;
                case 'i': scope &= ~1u; break;
                case 'm': for (j = 0; j < 10; j++) if ((j == 6 ? 2 : 2 + j % 5) < 4) scope &= ~(1u << j); break;
                case 'M': for (j = 0; j < 10; j++) if ((j == 6 ? 2 : 2 + j % 5) > 5) scope &= ~(1u << j); break;
                }
            }
            /* both regexes: the later one counts */
            if (x != y && op[x].k && op[y].k && op[x].k + op[y].k == 'e' + 'E') {
                int later = (pos & 1) == (pos >> 1 & 1) ? y : pos & 1 ? x : y;
                scope |= op[later].k == 'e' ? 0x20u : 0x80u;
            }
            scope &= ~(hid | lnk);
            if (R) scope &= ~0x130u;
            mc_desc("options around -I;");
            pre_opt = w[0]; npre = nw[0];
            run_judge(2, 0, w[1], nw[1], args, 1, scope);
            npre = 0;
        }
    }
    fake = 0;
}

/* ---- real pictures ---- */
#define NPIC 11
static struct { const char *name; unsigned char *d; size_t n; int broken; } P[NPIC];
static gdImagePtr draw(int kind, int w, int h)
{
    gdImagePtr im = gdImageCreateTrueColor(w, h);
    int x, y;
    for (y = 0; y < h; y++) for (x = 0; x < w; x++) {
        int fx = x * 100 / w, fy = y * 100 / h, v;
        switch (kind) {
        case 0: v = (fx * 2 + fy) * 255 / 300; break;                          /* gradient */
        case 1: v = (fx - 50) * (fx - 50) + (fy - 50) * (fy - 50) < 900 ? 230 : 20; break; /* disc */
        case 2: v = ((fx / 12) + (fy / 12)) % 2 ? 240 : 10; break;             /* checks */
        case 3: v = fx < 50 ? 30 : 220; break;
        case 4: v = (fx * 2 + fy) * 255 / 300; if (fx > 60 && fy > 60) v = 255 - v; break;    /* gradient with a patch */
        default: v = 128; break;
        }
        gdImageSetPixel(im, x, y, gdTrueColor(v, v / 2 + 40, 255 - v));
    }
    return im;
}
static void mkpics(void)
{
    int sz, i, j;
    gdImagePtr im;
    PuzzleContext c;
    PuzzleCvec v[NPIC];
    struct { int kind, w, h, fmt; const char *name; } mk[] = { { 0, 120, 90, 0, "t/a/grad.png" }, { 0, 60, 45, 0, "t/small.png" }, { 0, 120, 90, 1, "t/b/grad.jpg" }, { 4, 120, 90, 0, "t/patch.png" }, { 1, 100, 100, 0, "t/disc.png" }, { 1, 100, 100, 2, "t/disc.gif" }, { 2, 100, 80, 0, "t/checks.png" }, { 5, 50, 50, 0, "t/blank.png" } };
    for (i = 0; i < 8; i++) {
        void *d;
        im = draw(mk[i].kind, mk[i].w, mk[i].h);
        d = mk[i].fmt == 0 ? gdImagePngPtr(im, &sz) : mk[i].fmt == 1 ? gdImageJpegPtr(im, &sz, 80) : gdImageGifPtr(im, &sz);
        if (!d) mc_error("gd");
        P[i].name = mk[i].name; P[i].d = d; P[i].n = (size_t) sz;
        gdImageDestroy(im);
    }
    P[8].name = "t/copy.png"; P[8].d = P[0].d; P[8].n = P[0].n;
    P[9].name = "t/cut.png"; P[9].d = P[0].d; P[9].n = P[0].n / 8;
    P[10].name = "t/empty.png"; P[10].d = P[0].d; P[10].n = 0;
    /* distances by the library itself */
    t_clear();
    for (i = 0; i < NPIC; i++) t_file(P[i].d, P[i].n, P[i].name);
    t_build();
    puzzle_init_context(&c);
    puzzle_set_max_width(&c, 5000);
    puzzle_set_max_height(&c, 5000);
    puzzle_set_lambdas(&c, 13);
    for (i = 0; i < NPIC; i++) {
        int e = dup(2), nul = open("/dev/null", O_WRONLY);
        puzzle_init_cvec(&c, &v[i]);
        dup2(nul, 2);
        P[i].broken = puzzle_fill_cvec_from_file(&c, &v[i], P[i].name) != 0;
        dup2(e, 2); close(e); close(nul);
    }
    if (P[0].broken || !P[10].broken) mc_error("pictures");
    for (i = 0; i < NPIC; i++) for (j = 0; j < NPIC; j++) D[i][j] = P[i].broken || P[j].broken ? 9 : puzzle_vector_normalized_distance(&c, &v[i], &v[j], 0);
}
static void fam_real(void)
{
    static double D0[NPIC][NPIC];
    unsigned m;
    int i, t, done = 0;
    fake = 0;
    for (m = 1; m < (1u << NPIC); m++) {
        const char *args[] = { "t" };
        if (!mc_thorough && __builtin_popcount(m) > 5 && m != (1u << NPIC) - 1 && m % 4) continue;
        if (!mc_sel()) continue;
        NI = NPIC;
        for (i = 0; i < NPIC; i++) if (P[i].name) snprintf(iname[i], MAXP, "%s", P[i].name);
        if (!done) { mkpics(); for (i = 0; i < NPIC; i++) memcpy(D0[i], D[i], sizeof D0[i]); done = 1; }
        for (i = 0; i < NPIC; i++) snprintf(iname[i], MAXP, "%s", P[i].name);
        for (i = 0; i < NPIC; i++) memcpy(D[i], D0[i], sizeof D0[i]);
        t_clear();
        bad = 0;
        for (i = 0; i < NPIC; i++) { if (m >> i & 1) t_file(P[i].d, P[i].n, P[i].name); if (P[i].broken) bad |= 1u << i; }
        t_build();
        for (t = 1; t < 6; t++) {
            if (!mc_thorough && t != 1 + (int) (m % 5) && t != 1) continue;
            mc_desc("real pictures %03x;", m);
            run_judge(t, 0, NULL, 0, args, 1, m);
        }
    }
}
static void worker(void)
{
    t_init();
    fam_graphs();
    fam_real();
    t_remove();
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    return mc_run(worker);
}
