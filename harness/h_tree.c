/* F01-F06, F10: the whole program (ftwin_main) on enumerated trees, contents, layouts, options and
 * orders, its report compared with an independent computation from the model of the tree. */
#include "tree.h"
#include "checksum.h"

/* ---- checksum collisions: the hash of the real code is narrowed to a few values ---- */
static int collide;             /* 0 real hash, 1 all equal, 2 one bit, 3 only the size of the data modulo 2 */
XXH128_hash_t __real_XXH3_128bits(const void *p, size_t n);
XXH128_hash_t __real_XXH3_128bits_digest(const XXH3_state_t *s);
static XXH128_hash_t narrow(XXH128_hash_t h)
{
    if (collide == 1) { h.low64 = 42; h.high64 = 7; }
    if (collide == 2) { h.high64 = 1; h.low64 &= 1; }
    if (collide == 3) { h.low64 = 0; h.high64 &= 1; }
    return h;
}
XXH128_hash_t __wrap_XXH3_128bits(const void *p, size_t n) { return narrow(__real_XXH3_128bits(p, n)); }
XXH128_hash_t __wrap_XXH3_128bits_digest(const XXH3_state_t *s) { return narrow(__real_XXH3_128bits_digest(s)); }

static XXH128_hash_t (*ref_hash)(const void *, size_t);

/* ---- contents ---- */
static unsigned char *big[8];
#define NBIG 70000
static struct { const unsigned char *d; size_t n; } C[40];
static void init_contents(void)
{
    size_t i;
    int k;
    static const char *const s[] = { "", "x", "y", "xx", "xy" };
    for (k = 0; k < 5; k++) { C[k].d = (const unsigned char *) s[k]; C[k].n = strlen(s[k]); }
    for (k = 0; k < 8; k++) {
        big[k] = malloc(NBIG + 8);
        for (i = 0; i < NBIG + 8; i++) big[k][i] = (unsigned char) (i * 7 + (i >> 8) * 13 + 5);
    }
    C[5].d = big[0]; C[5].n = 5000;
    big[1][4999] ^= 1; C[6].d = big[1]; C[6].n = 5000;
    C[7].d = big[2]; C[7].n = NBIG;
    big[3][66000] ^= 0x80; C[8].d = big[3]; C[8].n = NBIG;
    C[9].d = (const unsigned char *) "\0"; C[9].n = 1;
    C[10].d = (const unsigned char *) "\0\0"; C[10].n = 2;
    C[11].d = (const unsigned char *) "x\0"; C[11].n = 2;
    C[12].d = (const unsigned char *) "\n"; C[12].n = 1;
    C[13].d = big[0]; C[13].n = 4096;
    C[14].d = big[0]; C[14].n = 4097;
    big[4][0] ^= 1; C[15].d = big[4]; C[15].n = 4096;
    C[16].d = big[0]; C[16].n = 65536;
    big[5][65535] ^= 1; C[17].d = big[5]; C[17].n = 65536;
    C[18].d = big[0]; C[18].n = 65537;
    big[6][65536] ^= 1; C[19].d = big[6]; C[19].n = 65537;
}

/* ---- judging ---- */
static const char *cwd_abs(void) { static char b[8192]; if (!b[0] && !realpath(".", b)) mc_error("realpath"); return b; }

static void iso(const struct timespec *t, char *b)
{
    struct tm tm;
    time_t s = t->tv_sec;
    gmtime_r(&s, &tm);
    sprintf(b, "%04d-%02d-%02dT%02d:%02d:%02dZ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
}

static int is_prio(const opt_t *o, const char *p)
{
    if (!o->p) return 0;
    return o->c ? !strncasecmp(p, o->p, strlen(o->p)) : !strncmp(p, o->p, strlen(o->p));
}

static void judge(const opt_t *o, int sound_only)
{
    int i, j, k, ng, seen[MAXE], cnt[MAXE];
    uint64_t h = 17;
    ng = 0;
    for (i = 0; i < NSEL; i++) { seen[i] = 0; if (SEL[i].grp >= ng) ng = SEL[i].grp + 1; }
    for (i = 0; i < ng; i++) cnt[i] = 0;
    for (i = 0; i < NSEL; i++) if (SEL[i].grp >= 0) cnt[SEL[i].grp]++;
    if (o->J && NSEL == 0 && NOUT == 0 && RC) { NG = 0; return; }
    if (o->J) g_parse_json(o->tflag);
    else g_parse_text(o->sep ? o->sep : '\n', o->d);
    for (i = 0; i < NG; i++) {
        grp_t *g = &G[i];
        int first, lastp = 1;
        if (g->n < 2) mc_fail(NULL, "ftwin%s reports the group of one file %s", CMD, g->n ? g->m[0].path : "(none)");
        first = sel_index(g->m[0].path);
        for (j = 0; j < g->n; j++) {
            int x = sel_index(g->m[j].path);
            int pr = is_prio(o, g->m[j].path);
            if (x < 0) { mc_fail(NULL, "ftwin%s lists %s, which is not in scope", CMD, g->m[j].path); return; }
            if (seen[x]++) mc_fail(NULL, "ftwin%s lists %s twice", CMD, g->m[j].path);
            if (SEL[x].n != SEL[first].n || memcmp(SEL[x].d, SEL[first].d, SEL[x].n))
                mc_fail(NULL, "ftwin%s reports %s and %s as duplicates, but their contents differ", CMD, g->m[0].path, g->m[j].path);
            if (pr && !lastp) mc_fail(NULL, "ftwin%s lists %s, which is under the priority path, after %s, which is not", CMD, g->m[j].path, g->m[j - 1].path);
            lastp = pr;
            if (o->J && g->m[j].prio != pr) mc_fail(NULL, "ftwin%s: \"prioritized\" of %s is wrong", CMD, g->m[j].path);
            if (o->J && SEL[x].e->has_mt) {
                char b[60];
                iso(&SEL[x].e->mt, b);
                if (strcmp(b, g->m[j].mtime)) mc_fail(NULL, "ftwin%s: the modification time of %s is %s, reported %s", CMD, g->m[j].path, b, g->m[j].mtime);
            }
        }
        if (o->J) {
            XXH128_hash_t w = ref_hash(SEL[first].d, SEL[first].n);
            char hx[40];
            snprintf(hx, sizeof hx, "%016llx%016llx", (unsigned long long) w.high64, (unsigned long long) w.low64);
            if (g->size != (long long) SEL[first].n) mc_fail(NULL, "ftwin%s: size of %s is %zu, reported %lld", CMD, g->m[0].path, SEL[first].n, g->size);
            if (!collide && strcasecmp(hx, g->hash)) mc_fail(NULL, "ftwin%s: checksum of %s is %s, reported %s", CMD, g->m[0].path, hx, g->hash);
        }
        if (!sound_only && (SEL[first].grp < 0 || g->n != cnt[SEL[first].grp])) {
            for (k = 0; k < NSEL; k++)
                if (!seen[k] && SEL[k].grp == SEL[first].grp)
                    mc_fail(NULL, "ftwin%s does not list %s in the group of the identical %s", CMD, SEL[k].path, g->m[0].path);
            mc_fail(NULL, "ftwin%s splits the group of %s", CMD, g->m[0].path);
        }
        h += mc_hash(&cnt[SEL[first].grp], sizeof(int), (uint64_t) SEL[first].n);
    }
    if (!sound_only)
        for (k = 0; k < NSEL; k++)
            if (SEL[k].grp >= 0 && !seen[k]) mc_fail(NULL, "ftwin%s does not report %s although an identical file is in scope", CMD, SEL[k].path);
    mc_trace(1);
    mc_outcome(h ^ mc_hash(OUT, NOUT, 3));
    mc_state(mc_hash(CMD, strlen(CMD), h));
}

static void go(const opt_t *o, const char *const *args, const char *const *models, int na)
{
    const char *av[MAXE];
    char pb[40][MAXP * 3];
    const char *printed[MAXE];
    int n = o_argv(o, av), i;
    for (i = 0; i < na; i++) {
        av[n++] = args[i];
        printed[i] = args[i];
        if (o->J && args[i][0] != '/') {
            if (i >= 40) mc_error("too many arguments");
            snprintf(pb[i], sizeof pb[i], "%s/%s", cwd_abs(), models ? models[i] : args[i]);
            printed[i] = pb[i];
        }
        else if (o->J && models) {
            snprintf(pb[i], sizeof pb[i], "%s/%s", cwd_abs(), models[i]);
            printed[i] = pb[i];
        }
    }
    sel_compute(o, printed, models ? models : args, na);
    mc_desc_add("; run");
    for (i = 0; i < n && i < 40; i++) mc_desc_add(" %s", av[i]);
    t_run(av, n);
    judge(o, mc_is("F01"));
}

/* ---- family 1: contents and layouts ---- */
static const char *const layouts[][8] = {
    { "t/a", "t/b", "t/c", "t/d", "t/e", "t/f", "t/g", "t/h" },
    { "t/a", "t/d/a", "t/d/b", "t/d/e/a", "t/f/a", "t/f/b", "t/d/e/b", "t/g/h/i" },
    { "t0/a", "t1/a", "t2", "t0/b", "t1/b", "t3", "t1/d/b", "t4" },
    { "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7" },
};
static void content_case(const int *a, int k, int lay, const opt_t *o)
{
    const char *args[8];
    int i, na = 0;
    t_clear();
    for (i = 0; i < k; i++) t_file(C[a[i]].d, C[a[i]].n, layouts[lay][i]);
    if (lay < 2) args[na++] = "t";
    else
        for (i = 0; i < k; i++) {
            static char top[8][8];
            int j;
            snprintf(top[na], 8, "%.2s", layouts[lay][i]);
            for (j = 0; j < na; j++) if (!strcmp(args[j], top[na])) break;
            if (j == na) { args[na] = top[na]; na++; }
        }
    mc_desc("contents");
    for (i = 0; i < k; i++) mc_desc_add(" %d", a[i]);
    mc_desc_add(" collide %d", collide);
    t_describe();
    t_build();
    go(o, args, NULL, na);
}
static void contents(const int *alpha, int na, int k, int lay0, int lay1)
{
    int a[8], i, lay;
    long n = 1, v;
    for (i = 0; i < k; i++) n *= na;
    for (lay = lay0; lay <= lay1; lay++)
        for (v = 0; v < n; v++) {
            static const struct { int J, x, col, th; } modes[] = {
                { 0, -1, 0, 1 }, { 0, -1, 1, 1 }, { 0, 0, 2, 1 }, { 1, -1, 0, 1 }, { 1, -1, 1, 1 }, { 1, 1, 3, 2 }, { 0, -1, 3, 2 }
            };
            int md;
            long t = v;
            for (i = 0; i < k; i++) { a[i] = alpha[t % na]; t /= na; }
            if (!mc_sel()) continue;
            for (md = 0; md < 7; md++) {
                opt_t o = { .x = modes[md].x, .J = modes[md].J, .threads = modes[md].th };
                if (lay > 1 && md > 3) break;
                collide = modes[md].col;
                content_case(a, k, lay, &o);
            }
            collide = 0;
        }
}
static void fam_contents(void)
{
    static const int al1[] = { 0, 1, 2, 3, 4 }, al2[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, al3[] = { 1, 2, 4 }, al4[] = { 1, 2 };
    static const int al5[] = { 1, 9, 12 }, al6[] = { 3, 10, 11 }, al7[] = { 13, 14, 15 }, al8[] = { 16, 17 }, al9[] = { 18, 19 };
    int k, t = mc_thorough;
    for (k = 1; k <= 3; k++) contents(al1, 5, k, 0, 3);
    contents(al1, 5, 4, 0, t ? 3 : 2);
    if (t) contents(al1, 5, 5, 0, 2);
    contents(al2, 9, t ? 4 : 3, 0, 1);
    contents(al3, 3, 5, 0, t ? 3 : 1);
    contents(al3, 3, t ? 7 : 6, t ? 0 : 1, 1);
    contents(al4, 2, t ? 8 : 7, 0, t ? 3 : 1);
    contents(al5, 3, 4, 0, 0); contents(al6, 3, 4, 0, 0); contents(al7, 3, 4, 0, 0); contents(al8, 2, 4, 0, 0); contents(al9, 2, 4, 0, 0);
}
/* JSON: files that differ although their checksums agree */
static void fam_json_same(void)
{
    static const int al[] = { 1, 2, 3, 4 };
    int k, i, a[8], c, t = mc_thorough;
    long n, v, x;
    for (k = 2; k <= (t ? 6 : 5); k++) {
        for (n = 1, i = 0; i < k; i++) n *= 4;
        for (v = 0; v < n; v++) {
            if (!mc_sel()) continue;
            for (x = v, i = 0; i < k; i++, x /= 4) a[i] = al[x % 4];
            for (c = 1; c <= 3; c++) {
                opt_t o = { .x = c == 2 ? 0 : -1, .J = 1, .threads = c == 3 ? 2 : 1 };
                collide = c;
                content_case(a, k, 0, &o);
            }
            collide = 0;
        }
    }
}
/* larger trees: c copies of each of m contents of s sizes, plus files without twin */
static void fam_many(void)
{
    int m, c, s, J, lay;
    static unsigned char buf[260][40];
    static const int ms[] = { 1, 5, 17, 60 }, cs[] = { 1, 2, 3, 9 };
    for (m = 0; m < 4; m++) for (c = 0; c < 4; c++) for (s = 0; s < 3; s++) for (lay = 0; lay < 3; lay++) for (J = 0; J < 2; J++) {
        const char *args[] = { "t" };
        opt_t o = { .x = -1, .J = J, .threads = 1 + lay };
        int i, j, k = 0;
        if (ms[m] * cs[c] > 500) continue;
        if (!mc_sel()) continue;
        t_clear();
        for (i = 0; i < ms[m]; i++) {
            size_t n = s == 0 ? 20 : s == 1 ? (size_t) (3 + i % 7) : (size_t) (3 + i % 37);
            memset(buf[i], 0, 40);
            snprintf((char *) buf[i], 40, "%03d", i);
            for (j = 0; j < cs[c]; j++, k++) {
                char p[64];
                if (lay == 0) snprintf(p, sizeof p, "t/f%03d", (k * 7) % 1000);
                else if (lay == 1) snprintf(p, sizeof p, "t/d%d/f%03d", k % 5, k);
                else snprintf(p, sizeof p, "t/d%d/e%d/f%03d", j, i % 3, i);
                t_file(buf[i], n, p);
            }
        }
        mc_desc("%d contents x %d copies, sizes mode %d, layout %d", ms[m], cs[c], s, lay);
        t_build();
        go(&o, args, NULL, 1);
    }
}
/* arguments that overlap: each file still counts once */
static void fam_overlap(void)
{
    static const char *const argv[] = { "t", "t/", "t/a", "t/d", "t/d/", "t/d/a", "t/e" };
    static const char *const mod[] = { "t", "t", "t/a", "t/d", "t/d", "t/d/a", "t/e" };
    int i, j, k, v, J;
    for (i = 0; i < 7; i++) for (j = 0; j < 7; j++) for (k = -1; k < 7; k++) for (J = 0; J < 2; J++) {
        if (!mc_sel()) continue;
        for (v = 0; v < 4; v++) {
            const char *args[3] = { argv[i], argv[j], k >= 0 ? argv[k] : NULL }, *models[3] = { mod[i], mod[j], k >= 0 ? mod[k] : NULL };
            opt_t o = { .x = -1, .J = J, .threads = 1 };
            t_clear();
            t_file(C[1].d, 1, "t/a");
            t_file(C[v & 1 ? 2 : 1].d, 1, "t/d/a");
            t_file(C[v & 2 ? 2 : 1].d, 1, "t/d/b");
            t_file(C[3].d, 2, "t/e");
            mc_desc("overlapping arguments, contents %d", v);
            t_describe();
            t_build();
            go(&o, args, models, k >= 0 ? 3 : 2);
        }
    }
}

/* ---- F03: orders ---- */
static int perm_next(int *a, int n)
{
    int i = n - 2, j = n - 1, t;
    while (i >= 0 && a[i] > a[i + 1]) i--;
    if (i < 0) return 0;
    while (a[j] < a[i]) j--;
    t = a[i]; a[i] = a[j]; a[j] = t;
    for (i++, j = n - 1; i < j; i++, j--) { t = a[i]; a[i] = a[j]; a[j] = t; }
    return 1;
}
static int ord_rank[6];
static int rank_of(const char *path)
{
    int i;
    size_t l = strlen(path);
    for (i = 0; i < NE; i++)            /* the first entry, in the order given, at or below this path */
        if (!strncmp(E[ord_rank[i]].path, path, l) && (!E[ord_rank[i]].path[l] || E[ord_rank[i]].path[l] == '/')) return i;
    return -1;
}
static void fam_orders(void)
{
    static const int sets[][6] = { { 1, 1, 1, 2, 2, 3 }, { 1, 2, 1, 2, 1, 2 }, { 0, 0, 1, 1, 3, 3 }, { 1, 2, 2, 2, 3, 4 }, { 0, 1, 1, 0, 2, 2 }, { 5, 6, 5, 6, 5, 1 } };
    static const char *const pa[2][6] = { { "t/a", "t/b", "t/c", "t/d", "t/e", "t/f" }, { "t/a", "t/d/a", "t/d/b", "t/e/a", "t/e/b", "t/b" } };
    int s, l, v, ord[6], i, k = mc_thorough ? 6 : 5;
    for (s = 0; s < 6; s++) for (l = 0; l < 2; l++) {
        for (i = 0; i < 6; i++) ord[i] = i;
        do {
            const char *args[] = { "t" };
            if (!mc_sel()) continue;
            t_clear();
            for (i = 0; i < k; i++) t_file(C[sets[s][i]].d, C[sets[s][i]].n, pa[l][i]);
            mc_desc("listing order");
            for (i = 0; i < k; i++) mc_desc_add(" %d", ord[i]);
            t_describe();
            t_build();
            memcpy(ord_rank, ord, sizeof ord);
            t_dirorder = 3; t_rank = rank_of;
            for (v = 0; v < 8; v++) {
                static const int th[] = { 1, 2, 3, 4 };
                opt_t o = { .x = -1, .J = v & 1, .threads = th[v >> 1] };
                if (v & 4 && (s & 1)) continue;
                go(&o, args, NULL, 1);
            }
            t_dirorder = 0;
        } while (perm_next(ord, k));
    }
    /* arguments in every order */
    for (s = 0; s < 6; s++) {
        for (i = 0; i < 6; i++) ord[i] = i;
        do {
            const char *args[6];
            if (!mc_sel()) continue;
            t_clear();
            for (i = 0; i < k; i++) { char p[8]; snprintf(p, sizeof p, i == 1 ? "t%d/a" : "t%d", i); t_file(C[sets[s][i]].d, C[sets[s][i]].n, p); }
            for (i = 0; i < k; i++) { static char nm[6][4]; snprintf(nm[i], 4, "t%d", ord[i]); args[i] = nm[i]; }
            mc_desc("argument order");
            t_describe();
            t_build();
            for (v = 0; v < 4; v++) {
                opt_t o = { .x = -1, .J = v & 1, .threads = 1 + (v >> 1) };
                go(&o, args, NULL, k);
            }
        } while (perm_next(ord, k));
    }
    /* every number of threads, more or fewer than tasks */
    for (s = 0; s < 6; s++) for (i = 1; i <= (mc_thorough ? 64 : 24); i++) for (v = 0; v < 2; v++) {
        const char *args[] = { "t" };
        int j;
        opt_t o = { .x = -1, .J = v, .threads = i };
        if (!mc_sel()) continue;
        t_clear();
        for (j = 0; j < 18; j++) { char p[16]; snprintf(p, sizeof p, "t/d%d/f%02d", j % 4, j); t_file(C[sets[s][j % 6]].d, C[sets[s][j % 6]].n, p); }
        mc_desc("%d threads", i);
        t_build();
        go(&o, args, NULL, 1);
    }
}

/* ---- F04: JSON ---- */
static void json_case(const char *name, int indir, int argform, const struct timespec *mt)
{
    static const char *const forms[] = { "t", "./t", "t/", "t/../t", "././/t", NULL };
    char p[MAXP], q[MAXP], abs[900];
    const char *args[1], *models[1] = { "t" };
    ent_t *e;
    opt_t o = { .x = -1, .J = 1, .threads = 1, .a = 1 };
    t_clear();
    snprintf(p, sizeof p, indir ? "t/%s/f" : "t/%s", name);
    snprintf(q, sizeof q, "t/zz twin");
    e = t_file(C[5].d, C[5].n, p);
    if (mt) { e->mt = *mt; e->has_mt = 1; }
    e = t_file(C[5].d, C[5].n, q);
    e->mt.tv_sec = 951782399; e->mt.tv_nsec = 999999999; e->has_mt = 1;
    t_file(C[6].d, C[6].n, "t/yy");
    if (argform == 5) { snprintf(abs, sizeof abs, "%s/t", cwd_abs()); args[0] = abs; }
    else args[0] = forms[argform];
    mc_desc("name \"");
    { const unsigned char *s; for (s = (const unsigned char *) name; *s; s++) mc_desc_add(*s < 33 || *s > 126 ? "\\x%02x" : "%c", *s); }
    mc_desc_add("\"");
    t_build();
    go(&o, args, models, 1);
}
static int u8(unsigned c, char *b)
{
    size_t n = jput(b, 0, 8, c);
    b[n] = 0;
    return (int) n;
}
static void fam_json(void)
{
    static const unsigned cps[] = { 0x80, 0x85, 0xa0, 0xe9, 0xff, 0x100, 0x3b1, 0x7ff, 0x800, 0x2028, 0x2029, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x2ffff, 0x10fffe, 0x10ffff };
    static const long secs[] = { 0, 1, -1, 59, 60, 3599, 86399, 86400, 951782400, 951868799, 951868800, 978307199, 1078012800, 1709164800, 1709251199, 1709251200, 2147483647, 2147483648L, 4102444800L, 4107542399L, 4107542400L, 253402300799L, -86400, -2208988800L };
    static const char *const sp[] = { "\"", "\\", "\n", "\t", "\x01", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "u0041", "'", " ", "\x1f", "\b", "&", "%s", "}", "\xe2\x80\xa8" };
    unsigned c;
    int i, j, f, d;
    setenv("TZ", "XYZ7ABC", 1);
    tzset();
    for (c = 1; c < 128; c++) {
        char n[40];
        if (c == '/') continue;
        for (d = 0; d < 2; d++) {
            if (!mc_sel()) continue;
            snprintf(n, sizeof n, "n%cm", (int) c);
            json_case(n, d, 0, NULL);
        }
    }
    for (i = 0; i < (int) (sizeof cps / sizeof *cps); i++) for (d = 0; d < 2; d++) for (f = 0; f < 3; f++) {
        char n[40], b[8];
        if (!mc_sel()) continue;
        u8(cps[i], b);
        snprintf(n, sizeof n, f == 0 ? "n%sm" : f == 1 ? "%s" : "n%s", b);
        json_case(n, d, 0, NULL);
    }
    if (mc_thorough)
        for (c = 0x80; c < 0x3000; c++) {
            char n[40], b[8];
            if (!mc_sel()) continue;
            u8(c, b);
            snprintf(n, sizeof n, "n%sm", b);
            json_case(n, 0, 0, NULL);
        }
    for (i = 0; i < 17; i++) for (j = 0; j < 17; j++) for (d = 0; d < 2; d++) {
        char n[40];
        if (!mc_sel()) continue;
        snprintf(n, sizeof n, "%s%s", sp[i], sp[j]);
        json_case(n, d, 0, NULL);
        snprintf(n, sizeof n, "a%sb%sc", sp[i], sp[j]);
        json_case(n, d, 0, NULL);
    }
    for (i = 0; i < (int) (sizeof secs / sizeof *secs); i++) for (j = 0; j < 3; j++) {
        struct timespec ts = { secs[i], j == 0 ? 0 : j == 1 ? 1000 : 999999999 };
        if (secs[i] < 0 && j) continue;
        if (!mc_sel()) continue;
        json_case("f", 0, 0, &ts);
    }
    for (f = 0; f < 6; f++) for (d = 0; d < 2; d++) {
        if (!mc_sel()) continue;
        json_case("f", d, f, NULL);
    }
    /* long paths */
    for (i = 0; i < 8; i++) {
        char n[300];
        if (!mc_sel()) continue;
        memset(n, 'q', sizeof n);
        n[30 + i * 25] = 0;
        json_case(n, i & 1, 0, NULL);
    }
    /* long nested paths, also of characters that need escapes or several bytes */
    for (i = 40; i <= 600; i += i % 64 == 0 || i % 64 == 63 || i > 590 ? 1 : 62 - i % 64 > 0 ? 63 - i % 64 : 1) for (j = 0; j < 4; j++) {
        char n[MAXP];
        int k, l;
        if (!mc_sel()) continue;
        for (k = l = 0; k < i; k++, l++) {
            if (l >= 150) { n[k] = '/'; l = -1; }
            else if (j == 2 && k + 1 < i) { n[k++] = '\xc3'; n[k] = '\xa9'; l++; }
            else n[k] = j == 0 ? (char) ('a' + k % 26) : j == 1 ? '\n' : j == 3 ? "\"\\\x01x"[k % 4] : 'e';
        }
        n[k] = 0;
        if (n[k - 1] == '/') n[k - 1] = 'q';
        json_case(n, 0, 0, NULL);
    }
}

/* ---- F05: filters ---- */
static void filt_tree(int variant)
{
    /* mirrored under t/A and t/B: a file is listed exactly if its twin is selected too; variant 1: all files equal */
    static const char *const names[] = { "a.txt", "b.TXT", "c.log", ".hid.txt", "skip", "skipper", "s/a.txt", "s/skip", "s/.deep/x.txt", ".dot/y.txt", "s/u/z.log", "s/skip2/k.txt", "we ird+(1).txt", "S/a.txt" };
    static unsigned char one[2][20][24];
    static const size_t sz[] = { 0, 1, 2, 10, 10, 10, 5, 3, 4, 6, 9, 11, 12, 8 };
    int r, i;
    t_clear();
    for (r = 0; r < 2; r++)
        for (i = 0; i < 14; i++) {
            char p[MAXP];
            memset(one[variant][i], 'a' + i, 24);
            if (variant) memset(one[variant][i], 'e', 24);
            snprintf(p, sizeof p, "t/%c/%s", 'A' + r, names[i]);
            t_file(one[variant][i], variant ? 10 : sz[i], p);
        }
    t_link("a.txt", "t/A/link.txt");
    t_link("../A/s", "t/B/ldir");
    t_link("nowhere", "t/A/broken.txt");
    t_link("skip", "t/B/l2");
    t_link("..", "t/A/s/up");
    t_add('F', NULL, 0, "t/A/fifo");
    t_add('D', NULL, 0, "t/B/empty");
}
static void fam_filters(void)
{
    static const char *const es[] = { NULL, "txt$", "skip", "/s/", "^t/A", "\\.LOG$", "A/s$", "(a|b)\\.", "x" };
    static const char *const ws[] = { NULL, "\\.txt$", "a", "/B/", "SKIP", "log$|TXT$", "s/.*x", "." };
    static const char *const is[] = { NULL, "skip", "a.txt,skip", "s", "skip,", "S,s,.dot", "nothing,else" };
    static const struct { const char *m, *M; } mm[] = { { NULL, NULL }, { "1", NULL }, { NULL, "10" }, { "10", "10" }, { "2", "9" }, { "11", "5" }, { "0", "0" }, { "10", NULL }, { NULL, "9" }, { "9", "11" }, { "1", "1" } };
    int v, a, c, Rr, f, e, w, i, m, J;
    int full = mc_thorough;
    for (v = 0; v < 2; v++) for (f = 0; f < 2; f++) for (e = 0; e < 9; e++) for (w = 0; w < 8; w++) {
        int built = 0;
        for (i = 0; i < 7; i++) for (m = 0; m < (v ? 4 : 11); m++) {
            if (!full && (e && w && i && m)) continue;                         /* quick: any three of the four value filters */
            if (!full && (e && w && (i || m)) && ((e + w + i + m) & 1)) continue;
            if (!full && v && (i > 3 || m > 1)) continue;
            if (!mc_sel()) continue;
            if (!built) { filt_tree(v); t_build(); built = 1; }
            for (a = 0; a < 2; a++) for (c = 0; c < 2; c++) for (Rr = 0; Rr < 2; Rr++) {
                const char *args[] = { "t" }, *args2[] = { "t/A", "t/B" };
                opt_t o = { .x = -1, .threads = 1, .a = a, .c = c, .R = Rr, .f = f, .e = es[e], .w = ws[w], .i = is[i], .m = mm[m].m, .M = mm[m].M };
                if (!full && c && !e && !w) continue;
                mc_desc("filter tree %d", v);
                if (Rr) go(&o, args2, NULL, 2);
                else go(&o, args, NULL, 1);
            }
        }
    }
    for (v = 0; v < 2; v++) for (f = 0; f < 2; f++) for (e = 0; e < 9; e++) for (w = 0; w < 8; w++) for (J = 0; J < 2; J++) {
        const char *args[] = { "t/A", "t/B" };
        opt_t o = { .x = -1, .threads = 1, .a = 1, .f = f, .e = e == 4 ? "w[0-9]+/t/A" : es[e], .w = ws[w], .J = J, .c = (e ^ w) & 1 };
        if (!mc_sel()) continue;
        filt_tree(v); t_build();
        mc_desc("filter tree %d", v);
        go(&o, args, NULL, 2);
    }
    /* regexes with very many groups, alternatives and repetitions, long ones */
    for (v = 0; v < 2; v++) for (e = 0; e < 12; e++) for (w = 0; w < 3; w++) for (c = 0; c < 2; c++) {
        static char big[4000];
        const char *args[] = { "t" };
        opt_t o = { .x = -1, .threads = 1, .a = 1, .c = c };
        int k, n[] = { 1, 20, 60, 69, 70, 71, 80, 200 };
        size_t l = 0;
        if (!mc_sel()) continue;
        filt_tree(v); t_build();
        mc_desc("filter tree %d", v);
        big[0] = 0;
        if (e < 8) { for (k = 0; k < n[e]; k++) l += (size_t) sprintf(big + l, "(%s)", k % 3 ? "" : "[^~]?"); strcpy(big + l, "\\.TXT$"); }
        else if (e == 8) { for (k = 0; k < 150; k++) l += (size_t) sprintf(big + l, "nofile%03d|", k); strcpy(big + l, "skip"); }
        else if (e == 9) strcpy(big, "(((a|b)\\.)|(s/(u|(skip2))))+");
        else if (e == 10) strcpy(big, "^(?:t/)(?=A).*$");
        else { strcpy(big, "("); for (k = 0; k < 100; k++) strcat(big, "(?:"); strcat(big, "log"); for (k = 0; k < 100; k++) strcat(big, ")"); strcat(big, ")$"); }
        if (w != 1) o.e = big;
        if (w != 0) o.w = w == 2 ? "." : big;
        go(&o, args, NULL, 1);
    }
    /* sizes: every pair of limits around every size, files of 0..6 bytes twice each; human-readable units */
    for (m = -1; m <= 7; m++) for (a = -1; a <= 7; a++) for (J = 0; J < 2; J++) {
        static char bm[8], bM[8];
        const char *args[] = { "t" };
        opt_t o = { .x = -1, .threads = 1, .J = J };
        if (!mc_sel()) continue;
        t_clear();
        for (i = 0; i < 14; i++) { char p[16]; snprintf(p, sizeof p, "t/f%d", i); t_file((const unsigned char *) "abcdefgh", (size_t) (i / 2), p); }
        if (m >= 0) { snprintf(bm, 8, "%d", m); o.m = bm; }
        if (a >= 0) { snprintf(bM, 8, "%d", a); o.M = bM; }
        mc_desc("size limits");
        t_build();
        go(&o, args, NULL, 1);
    }
    /* long ignore lists, long names in them, names that are the beginning of one another */
    {
        static const int ns[] = { 1, 2, 7, 31, 33, 64, 100, 129, 255, 257, 300 }, ls[] = { 5, 8, 20, 40, 100, 200, 250 };
        for (v = 0; v < 11; v++) for (e = 0; e < 7; e++) for (w = 0; w < 3; w++) {
            static char list[90000];
            const char *args[] = { "t" };
            opt_t o = { .x = -1, .threads = 1, .i = list };
            size_t l = 0;
            int k, n = ns[v], nf = n < 20 ? n + 3 : 23;
            if (!mc_sel()) continue;
            t_clear();
            list[0] = 0;
            for (k = 0; k < n; k++) l += (size_t) sprintf(list + l, "%s%0*d%.*s", k ? "," : "", ls[e] - 1, k, w == 1 ? 1 : 0, "x");
            if (w == 2) strcpy(list + l, ",");
            for (k = 0; k < nf; k++) {         /* the last ones of the list and three that are not in it */
                char p[MAXP];
                int q = n + 3 - nf + k;
                snprintf(p, sizeof p, "t/A/%0*d%.*s", ls[e] - 1, q, w == 1 ? 1 : 0, "x"); t_file(C[1].d, 1, p);
                snprintf(p, sizeof p, "t/B/%0*d%.*s", ls[e] - 1, q, w == 1 ? 1 : 0, "x"); t_file(C[1].d, 1, p);
                if (k == nf - 4) { snprintf(p, sizeof p, "t/A/%0*d%sy", ls[e] - 1, q, w == 1 ? "x" : ""); t_file(C[1].d, 1, p); snprintf(p, sizeof p, "t/A/%0*d", ls[e] - 2, q); t_file(C[1].d, 1, p); }
            }
            mc_desc("ignore list of %d names of %d characters", n, ls[e]);
            t_build();
            go(&o, args, NULL, 1);
        }
    }
    /* long paths: what decides is at the end, at every length */
    {
        static const int ls[] = { 30, 62, 64, 66, 100, 127, 129, 200, 254, 256, 258, 300, 400, 511, 513, 600 };
        for (v = 0; v < 16; v++) for (e = 0; e < 6; e++) for (J = 0; J < 2; J++) {
            const char *args[] = { "t" };
            opt_t o = { .x = -1, .threads = 1, .J = J };
            char pre[MAXP], p[MAXP];
            int k;
            if (!mc_sel()) continue;
            for (k = 0; k < ls[v]; k++) pre[k] = k % 60 == 59 ? '/' : (char) ('a' + k % 17);
            pre[0] = 't'; pre[1] = '/'; pre[k] = 0;
            if (pre[k - 1] == '/') pre[k - 1] = 'q';
            t_clear();
            for (k = 0; k < 8; k++) {
                static const char *const tail[] = { "/one.txt", "/two.txt", "/one.log", "/.one.txt", "/skip", "/skipper", "/sub/one.txt", "/.sub/two.txt" };
                snprintf(p, sizeof p, "%s%s", pre, tail[k]); t_file(C[1].d, 1, p);
            }
            if (e == 0) o.e = "one\\.txt$"; else if (e == 1) o.w = "\\.txt$"; else if (e == 2) o.i = "skip,two.txt"; else if (e == 3) { o.a = 1; o.e = "/skip$"; } else if (e == 4) o.w = "sub/";
            mc_desc("paths of %d characters and more", ls[v]);
            t_build();
            go(&o, args, NULL, 1);
        }
    }
    /* no -a: hidden files and directories at several depths, with every subset of dots on a three-level path */
    for (v = 0; v < 64; v++) for (a = 0; a < 2; a++) {
        const char *args[] = { "t" };
        opt_t o = { .x = -1, .threads = 1, .a = a };
        char p[64];
        if (!mc_sel()) continue;
        t_clear();
        snprintf(p, sizeof p, "t/%sa/%sb/%sc", v & 1 ? "." : "", v & 2 ? "." : "", v & 4 ? "." : "");
        t_file(C[1].d, 1, p);
        snprintf(p, sizeof p, "t/%sd/%se/%sf", v & 8 ? "." : "", v & 16 ? "." : "", v & 32 ? ".." : "");
        t_file(C[1].d, 1, p);
        mc_desc("hidden");
        t_describe();
        t_build();
        go(&o, args, NULL, 1);
    }
    /* links: chains, loops, links to files and directories inside and outside, with and without -f */
    for (v = 0; v < 64; v++) for (f = 0; f < 2; f++) for (Rr = 0; Rr < 2; Rr++) {
        const char *args[] = { "t" };
        opt_t o = { .x = -1, .threads = 1, .f = f, .R = Rr };
        if (!mc_sel()) continue;
        t_clear();
        t_file(C[1].d, 1, "t/a");
        t_file(C[3].d, 2, "t/d/b");
        t_file(C[3].d, 2, "tout/c");
        if (v & 1) t_link("a", "t/la");
        if (v & 2) t_link("la", "t/lla");
        if (v & 4) t_link("d", "t/ld");
        if (v & 8) t_link("../../tout", "t/d/ext");
        if (v & 16) t_link("..", "t/d/up");
        if (v & 32) t_link("self", "t/self");
        mc_desc("links");
        t_describe();
        t_build();
        go(&o, args, NULL, 1);
    }
    /* every name rule and size bound on every kind of link, found in a directory or given as argument */
    {
        static const char *const nm[] = { "lk", ".lk", "skip", "lk.log", "lk.txt", "LK.TXT" };
        static const char *const tg[] = { "../to/f.txt", "../to/big.log", "../to/dd", "../to/.hid", "../to/.hdd", "../to/skip", "nowhere", "../to/l1", "../to/l2" };
        int n, g, q, x, w;
        for (n = 0; n < 6; n++) for (g = 0; g < 9; g++) for (q = 0; q < 8; q++) for (x = 0; x < 8; x++) for (w = 0; w < 3; w++) {
            char l[64];
            const char *args[3] = { "t", NULL, NULL };
            opt_t o = { .x = -1, .threads = 1, .f = q & 1, .a = q >> 1 & 1, .R = q >> 2 & 1, .J = w == 1 };
            if (!mc_sel()) continue;
            t_clear();
            t_file(C[1].d, 1, "to/f.txt"); t_file(C[3].d, 2, "to/big.log"); t_file(C[3].d, 2, "to/dd/k.txt"); t_file(C[1].d, 1, "to/.hid"); t_file(C[1].d, 1, "to/.hdd/z"); t_file(C[1].d, 1, "to/skip/w.txt");
            t_link("f.txt", "to/l1"); t_link("dd", "to/l2");
            t_file(C[1].d, 1, "t/base.txt"); t_file(C[3].d, 2, "t/base2.txt"); t_file(C[1].d, 1, "tu/one.txt");
            snprintf(l, sizeof l, "t/%s", nm[n]); t_link(tg[g], l);
            if (w == 2) { if (g == 6) continue; args[0] = l; args[1] = "tu"; args[2] = "t/base2.txt"; }
            if (x == 1) o.e = "\\.log$"; else if (x == 2) o.w = "\\.txt$"; else if (x == 3) o.i = "skip,lk"; else if (x == 4) o.m = "2"; else if (x == 5) o.M = "1"; else if (x == 6) { o.e = "\\.TXT$"; o.c = 1; } else if (x == 7) { o.w = "lk"; o.c = 1; }
            mc_desc("link %s to %s, rule %d", nm[n], tg[g], x);
            t_describe();
            t_build();
            go(&o, args, NULL, w == 2 ? 3 : 1);
        }
    }
    /* directories whose numbers agree in all bits but some, or that lie on other devices, are not taken for one another */
    for (v = 0; v < 8; v++) for (f = 0; f < 2; f++) for (J = 0; J < 2; J++) {
        const char *args[] = { "t" };
        opt_t o = { .x = -1, .threads = 1, .f = f, .J = J };
        if (!mc_sel()) continue;
        t_clear();
        t_file(C[1].d, 1, "t/a"); t_file(C[1].d, 1, "t/d/b"); t_file(C[1].d, 1, "t/d/e/c"); t_file(C[3].d, 2, "t/d/e/g/h"); t_file(C[3].d, 2, "t/d/e/g/i/j"); t_file(C[1].d, 1, "t/k/l"); t_file(C[3].d, 2, "to/m/n");
        t_link("../..", "t/d/e/up"); t_link("../../to", "t/k/out");
        mc_desc("inode numbers and devices of kind %d", v);
        t_describe();
        t_build();
        t_inomode = v;
        go(&o, args, NULL, 1);
        t_inomode = 0;
    }
}

/* ---- F10: priority ---- */
static void fam_prio(void)
{
    static const char *const paths[] = { "t/p/a", "t/pq", "t/q/a", "t/P/x", "t/p/s/b", "t/0", "t/zz" };
    static const char *const ps[] = { "t/p/", "t/p", "t/P", "t/q/a", "t/", "t/p/a", "zz", "t/0", "t/pqr", "T/p" };
    int v, p, c, J, i, k = mc_thorough ? 7 : 6;
    long n, t;
    static const int alpha[] = { 1, 2, 3 };
    for (n = 1, i = 0; i < k; i++) n *= 3;
    for (v = 0; v < n; v++) {
        if (!mc_sel()) continue;
        t_clear();
        for (t = v, i = 0; i < k; i++, t /= 3) t_file(C[alpha[t % 3]].d, C[alpha[t % 3]].n, paths[i]);
        t_build();
        for (p = 0; p < 10; p++) for (c = 0; c < 2; c++) {
            const char *args[] = { "t" };
            opt_t o = { .x = -1, .threads = 1, .p = ps[p], .c = c };
            if (!mc_thorough && p > 5 && c) continue;
            mc_desc("priority");
            t_describe();
            go(&o, args, NULL, 1);
        }
        for (J = 0; J < 5; J++) {
            const char *args[] = { "t" };
            char ab[900];
            opt_t o = { .x = -1, .threads = 1 + (J & 1), .J = 1 };
            snprintf(ab, sizeof ab, "%s/%s", cwd_abs(), ps[J]);
            o.p = ab;
            mc_desc("priority json");
            t_describe();
            collide = J == 3;
            go(&o, args, NULL, 1);
            collide = 0;
        }
    }
    /* listing orders and hash collisions */
    for (v = 0; v < 3; v++) {
        int ord[6] = { 0, 1, 2, 3, 4, 5 };
        do {
            const char *args[] = { "t" };
            if (!mc_sel()) continue;
            t_clear();
            for (i = 0; i < 6; i++) t_file(C[v == 0 ? 1 : v == 1 ? 1 + i % 2 : 1 + (i > 2)].d, 1, paths[i]);
            t_build();
            memcpy(ord_rank, ord, sizeof ord);
            t_dirorder = 3; t_rank = rank_of;
            for (c = 0; c < 4; c++) for (p = 0; p < 3; p++) {
                opt_t o = { .x = -1, .threads = 1, .p = ps[p], .J = 0 };
                collide = c;
                mc_desc("priority, listing order, collide %d", c);
                go(&o, args, NULL, 1);
            }
            collide = 0;
            t_dirorder = 0;
        } while (perm_next(ord, 6));
    }
    /* long priority paths: names that agree in their first L characters and differ in the next one */
    {
        static const int ls[] = { 12, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400 };
        for (v = 0; v < (int) (sizeof ls / sizeof *ls); v++) for (c = 0; c < 2; c++) for (J = 0; J < 2; J++) for (p = 0; p < 4; p++) {
            char pre[MAXP], nm[5][MAXP], pp[MAXP + 900];
            const char *args[] = { "t" };
            opt_t o = { .x = -1, .threads = 1, .J = J, .c = c };
            int L = ls[v];
            if (!mc_sel()) continue;
            for (i = 0; i < L; i++) pre[i] = i % 50 == 49 ? '/' : "abcdefgh"[i % 8];
            pre[0] = 't'; pre[1] = '/'; pre[L] = 0;
            if (pre[L - 1] == '/') pre[L - 1] = 'q';
            /* on the priority path, off it in its last character, off it in an earlier one, shorter than it, differing in case */
            snprintf(nm[0], MAXP, "%sx1", pre); snprintf(nm[1], MAXP, "%sy1", pre); snprintf(nm[2], MAXP, "%sx2", pre);
            snprintf(nm[3], MAXP, "%sX3", pre); snprintf(nm[4], MAXP, "%sz/x/y", pre);
            t_clear();
            for (i = 0; i < 5; i++) t_file(C[1].d, 1, nm[(i + p) % 5]);
            t_file(C[1].d, 1, "t/a"); t_file(C[1].d, 1, "t/zz");
            snprintf(pp, sizeof pp, "%s%s%s%s", J ? cwd_abs() : "", J ? "/" : "", pre, p == 0 ? "x" : p == 1 ? "y1" : p == 2 ? "z/x/" : "X");
            o.p = pp;
            t_build();
            mc_desc("priority path of %zu characters", strlen(pp));
            go(&o, args, NULL, 1);
        }
    }
    /* large groups: every k-th of n files is on the priority path */
    for (v = 0; v < 6; v++) for (c = 0; c < 5; c++) for (J = 0; J < 2; J++) {
        static const int ns[] = { 7, 20, 65, 130, 260, 400 }, ks[] = { 1, 2, 3, 7, 64 };
        const char *args[] = { "t" };
        char ab[900];
        opt_t o = { .x = -1, .threads = 1 + J, .J = J };
        if (!mc_sel()) continue;
        t_clear();
        for (i = 0; i < ns[v]; i++) {
            char nm[40];
            snprintf(nm, sizeof nm, "t/%c/f%03d", i % ks[c] ? "abz"[i % 3] : 'm', i);
            t_file(C[1 + i % 2].d, 1, nm);
        }
        snprintf(ab, sizeof ab, "%s%st/m", J ? cwd_abs() : "", J ? "/" : "");
        o.p = ab;
        t_build();
        mc_desc("%d files, every %dth on the priority path", ns[v], ks[c]);
        go(&o, args, NULL, 1);
    }
    /* separators and size lines */
    for (v = 0; v < 27; v++) for (c = 0; c < 6; c++) {
        const char *args[] = { "t" };
        opt_t o = { .x = -1, .threads = 1, .p = "t/p", .sep = ",;|: \t"[c], .d = c & 1 };
        if (!mc_sel()) continue;
        t_clear();
        for (t = v, i = 0; i < 3; i++, t /= 3) { t_file(C[alpha[t % 3]].d, C[alpha[t % 3]].n, paths[i]); t_file(C[1].d, 1, paths[i + 3]); }
        t_build();
        mc_desc("separator");
        go(&o, args, NULL, 1);
    }
}

/* ---- F06: ignore files and default patterns ---- */
static void ig_file(const char *p) { t_file((const unsigned char *) "same", 4, p); }
static void ig_args(opt_t *o, int form, int two)
{
    static char ab[2][900];
    const char *args[2], *models[] = { two ? "t/A" : "t", "t/B" };
    int i;
    for (i = 0; i < 2; i++) {
        snprintf(ab[i], sizeof ab[i], form == 0 ? "%.0s%s" : form == 1 ? "%.0s%s/" : form == 2 ? "%.0s./%s" : "%s/%s", cwd_abs(), models[i]);
        args[i] = ab[i];
    }
    t_describe();
    go(o, args, models, two ? 2 : 1);
}
static void fam_ignore(void)
{
    static const char *const pool[] = { "f", "!f", "*", "!*", "a/", "/a", "b", "!b/", "a/b", "a/b/f", "**/f", "a/**", "/*", "!a", "g*", "/b/f", "f/", "?", "[f-g]", "*/f", "**/b/*", "!/a/b", "a", "b/" };
    int np = (int) (sizeof pool / sizeof *pool), n0 = mc_thorough ? np : 16, i, j, k, l, form, J, a;
    /* every default pattern, as file and as directory, on two levels, and near misses; with and without re-inclusion */
    for (i = -1; i < NDEFAULTS; i++) for (form = 0; form < 4; form++) for (a = 0; a < 2; a++) for (J = 0; J < 2; J++) for (k = 0; k < 3; k++) {
        opt_t o = { .x = -1, .threads = 1, .J = J, .a = a };
        static char gi[60];
        if (!mc_sel()) continue;
        t_clear();
        ig_file("t/A/keep"); ig_file("t/B/keep");
        for (j = 0; j < NDEFAULTS; j++) {
            char nm[40], p[80];
            size_t n;
            if (i >= 0 && j != i) continue;
            snprintf(nm, sizeof nm, "%s%s", t_defaults[j][0] == '*' ? "x" : "", t_defaults[j] + (t_defaults[j][0] == '*'));
            n = strlen(nm);
            if (nm[n - 1] == '/') nm[n - 1] = 0;
            snprintf(p, sizeof p, "t/A/%s", nm); ig_file(p);
            snprintf(p, sizeof p, "t/A/s/%s", nm); ig_file(p);
            snprintf(p, sizeof p, "t/A/s/u/v/%s", nm); ig_file(p);
            snprintf(p, sizeof p, "t/B/%s/x", nm); ig_file(p);
            snprintf(p, sizeof p, "t/B/s/%s/y/z", nm); ig_file(p);
            snprintf(p, sizeof p, "t/A/%sq", nm); ig_file(p);
            snprintf(p, sizeof p, "t/A/q%s", nm); ig_file(p);
            snprintf(p, sizeof p, "t/B/%sq/x", nm); ig_file(p);
            snprintf(p, sizeof p, "t/B/q%s/x", nm); ig_file(p);
        }
        if (k && i >= 0) {
            snprintf(gi, sizeof gi, "!%s\n", t_defaults[i]);
            t_file((unsigned char *) gi, strlen(gi), k == 1 ? "t/A/.gitignore" : "t/B/.gitignore");
        }
        else if (k) { t_file((const unsigned char *) "!*\n", 3, k == 1 ? "t/A/.gitignore" : "t/B/.gitignore"); }
        t_build();
        mc_desc("default patterns, form %d", form);
        ig_args(&o, form, J);
    }
    /* ignore files on three levels: up to two lines, one line, one line */
    for (i = -1; i < np; i++) for (j = -1; j < (i < 0 ? 0 : np); j++) {
        if (!mc_thorough && (i >= n0 || j >= n0) && j >= 0 && ((i ^ j) & 1)) continue;
        for (k = -1; k < n0; k++) {
            if (!mc_sel()) continue;
            for (l = -1; l < (mc_thorough ? n0 : 12); l += mc_thorough ? 1 : 1 + (j >= 0)) {
                opt_t o = { .x = -1, .threads = 1, .J = 0 };
                static char g0[60], g1[40], g2[40];
                static const char *const files[] = { "f", "g", "b", "a/f", "a/g", "ab/f", "a/b/f", "a/b/g", "a/b/a/f", "a/b/c/b/f", "a/ab/f", "b/f", "B/b/f", "f.f/b/g", "c/f/g" };
                t_clear();
                for (a = 0; a < 15; a++) { char p[60]; if (!strcmp(files[a], "b") || (i >= 0 && (i & 1) && !strcmp(files[a], "b/f"))) continue; snprintf(p, sizeof p, "t/%s", files[a]); ig_file(p); }
                if (i >= 0) { snprintf(g0, sizeof g0, "%s\n%s%s", pool[i], j >= 0 ? pool[j] : "", i & 1 ? "\n" : ""); t_file((unsigned char *) g0, strlen(g0), "t/.gitignore"); }
                if (k >= 0) { snprintf(g1, sizeof g1, "%s\n", pool[k]); t_file((unsigned char *) g1, strlen(g1), "t/a/.gitignore"); }
                if (l >= 0) { snprintf(g2, sizeof g2, "%s\r\n", pool[l]); t_file((unsigned char *) g2, strlen(g2), "t/a/b/.gitignore"); }
                t_build();
                mc_desc("ignore files %s,%s | %s | %s;", i >= 0 ? pool[i] : "-", j >= 0 ? pool[j] : "-", k >= 0 ? pool[k] : "-", l >= 0 ? pool[l] : "-");
                o.J = (i + k + l) % 5 == 0;
                o.a = (i + j + k) % 3 == 0;
                ig_args(&o, (i + j + k + l + 4) % 4, 0);
            }
        }
    }
    /* ignore files far above or below the file they decide on, with many lines, and lines that do not count in between */
    {
        static const int deep[] = { 1, 4, 8, 11, 12, 16, 17, 20, 31, 32, 33, 45 };
        for (i = 0; i < 12; i++) for (j = 0; j <= deep[i]; j += 1 + (deep[i] > 8) * (deep[i] / 5)) for (k = -1; k <= deep[i]; k += 1 + (deep[i] > 8) * (deep[i] / 4)) for (l = 0; l < 4; l++) {
            opt_t o = { .x = -1, .threads = 1, .J = (i + j + k + l) % 4 == 0 };
            char p[400] = "t", q[420];
            static char g0[80000], g1[20];
            size_t n = 0;
            if (!mc_sel()) continue;
            t_clear();
            if (l & 2) for (a = 0; a < (l == 3 ? 300 : 40); a++) n += (size_t) sprintf(g0 + n, a % 7 == 3 ? "# h%d\n" : a % 7 == 5 ? "\n" : "h%d\n", a);
            n += (size_t) sprintf(g0 + n, l & 1 ? "f\n!g\nu/\n" : "f\ng\n!g\n");
            strcpy(g1, l & 1 ? "!f\ng\n" : "!f\n");
            for (a = 0; a <= deep[i]; a++) {
                snprintf(q, sizeof q, "%s/f", p); ig_file(q);
                snprintf(q, sizeof q, "%s/g", p); ig_file(q);
                snprintf(q, sizeof q, "%s/h%d", p, a); ig_file(q);
                if (a % 5 == 0) { snprintf(q, sizeof q, "%s/u/k", p); ig_file(q); }
                snprintf(q, sizeof q, "%s/.gitignore", p);
                if (a == j) t_file((unsigned char *) g0, n, q);
                else if (a == k) t_file((unsigned char *) g1, strlen(g1), q);
                strcat(p, "/d");
            }
            t_build();
            mc_desc("%d levels, ignore files on %d and %d, kind %d;", deep[i], j, k, l);
            ig_args(&o, (i + j + l) % 4, 0);
        }
    }
    /* argument forms, two arguments, an ignore file that is a directory or empty, together with the other filters */
    for (i = 0; i < np; i++) for (form = 0; form < 4; form++) for (J = 0; J < 2; J++) for (k = 0; k < 6; k++) {
        opt_t o = { .x = -1, .threads = 1, .J = J, .a = k == 1, .R = k == 2, .i = k == 3 ? "g" : NULL, .w = k == 4 ? "f$" : NULL };
        static char g0[40];
        if (!mc_sel()) continue;
        snprintf(g0, sizeof g0, "%s", pool[i]);
        t_clear();
        for (a = 0; a < 2; a++) {
            static const char *const files[] = { "f", "g", "a/f", "a/g", "a/b/f", "b/f", "b/g", "c/f/g" };
            for (j = 0; j < 8; j++) { char p[60]; snprintf(p, sizeof p, "t/%c/%s", 'A' + a, files[j]); ig_file(p); }
        }
        t_file((unsigned char *) g0, strlen(g0), "t/A/.gitignore");
        if (k == 5) t_add('D', NULL, 0, "t/B/.gitignore");
        else t_file((unsigned char *) "", 0, "t/B/.gitignore");
        t_build();
        mc_desc("ignore file %s, form %d, variant %d;", pool[i], form, k);
        ig_args(&o, form, 1);
    }
}

/* ---- F13: spellings, orders, wrong command lines ---- */
typedef struct { char sh; const char *lg, *val; } atom_t;
static const atom_t AT[] = {
    { 'a', "hidden", NULL }, { 'c', "case-unsensitive", NULL }, { 'd', "display-size", NULL }, { 'f', "follow-symlink", NULL }, { 'R', "no-recurse", NULL }, { 'r', "recurse-subdir", NULL },
    { 'J', "json", NULL }, { 'n', "dry-run", NULL }, { 'o', "optimize-memory", NULL }, { 'v', "verbose", NULL }, { 't', "tar-cmp", NULL },
    { 'e', "regex-ignore-file", "SKIP" }, { 'e', "regex-ignore-file", "/s$" }, { 'w', "whitelist-regex-file", "\\.txt$" }, { 'w', "whitelist-regex-file", "^t/./s" }, { 'i', "ignore-list", "a.txt" }, { 'i', "ignore-list", "S,skip" },
    { 'm', "minimal-length", "5" }, { 'm', "minimal-length", "0.005k" }, { 'M', "max-size", "10" }, { 'M', "max-size", "6B" }, { 'p', "priority-path", "t/B" }, { 'p', "priority-path", "T/a" }, { 's', "separator", "," },
    { 'x', "excessive-size", "0" }, { 'j', "threads", "2" }, { 'T', "image-threshold", "3" } };
#define NAT ((int) (sizeof AT / sizeof *AT))
static void at_apply(opt_t *o, const atom_t *t)
{
    static char il[4][200];
    static int ili;
    switch (t->sh) {
    case 'a': o->a = 1; break; case 'c': o->c = 1; break; case 'd': o->d = 1; break; case 'f': o->f = 1; break; case 'R': o->R = 1; break; case 'r': o->R = 0; break;
    case 'J': o->J = 1; break; case 't': o->tflag = 1; break; case 'e': o->e = t->val; break; case 'w': o->w = t->val; break; case 'p': o->p = t->val; break; case 's': o->sep = t->val[0]; break;
    case 'i': { char *b = il[ili++ & 3]; if (o->i) { snprintf(b, 200, "%s,%s", o->i, t->val); o->i = b; } else o->i = t->val; break; }
    case 'm': o->m = "5"; break; case 'M': o->M = t->val[0] == '1' ? "10" : "6"; break;
    }
}
static char at_buf[64][80];
static int at_nb;
static int at_spell(const atom_t *t, int sp, const char **av)        /* 0: -x V  1: --long V  2: -xV  3: --long=V */
{
    char *b = at_buf[at_nb++ & 63];
    if (!t->val) { if (sp & 1) snprintf(b, 80, "--%s", t->lg); else snprintf(b, 80, "-%c", t->sh); av[0] = b; return 1; }
    if (sp == 0) snprintf(b, 80, "-%c", t->sh);
    if (sp == 1) snprintf(b, 80, "--%s", t->lg);
    if (sp == 2) snprintf(b, 80, "-%c%s", t->sh, t->val);
    if (sp == 3) snprintf(b, 80, "--%s=%s", t->lg, t->val);
    av[0] = b;
    if (sp < 2) av[1] = t->val;
    return sp < 2 ? 2 : 1;
}
static void strip_colours(void)
{
    size_t i, j = 0;
    for (i = 0; i < NOUT; i++) {
        if (OUT[i] == 27 && OUT[i + 1] == '[') { i += 2; while (i < NOUT && (OUT[i] == ';' || (OUT[i] >= '0' && OUT[i] <= '9'))) i++; continue; }    /* up to and including the final letter */
        OUT[j++] = OUT[i];
    }
    NOUT = j;
    OUT[j] = 0;
}
static void at_run(opt_t *o, const char **av, int n)
{
    const char *args[] = { "t/A", "t/B" }, *printed[2];
    char pb[2][9000];
    int i;
    for (i = 0; i < 2; i++) {
        printed[i] = av[n++] = args[i];
        if (o->J) { snprintf(pb[i], sizeof pb[i], "%s/%s", cwd_abs(), args[i]); printed[i] = pb[i]; }
    }
    sel_compute(o, printed, args, 2);
    mc_desc("the filter tree; run");
    for (i = 0; i < n; i++) mc_desc_add(" %s", av[i]);
    t_run(av, n);
    if (t_tty && !o->J) strip_colours();
    judge(o, 0);
    if (NSEL) MC_CHECK(RC == 0, "ftwin%s ends with an error", CMD);
}
static void no_report(int want_rc, const char *why)
{
    MC_CHECK(want_rc ? RC != 0 : RC == 0, "ftwin%s (%s) ends with %s", CMD, why, RC ? "an error" : "success");
    MC_CHECK(!strstr((char *) OUT, "t/A/") && !strstr((char *) OUT, "t/B/"), "ftwin%s (%s) prints a report", CMD, why);
    mc_trace(1);
    mc_outcome(mc_hash(OUT, NOUT, (uint64_t) RC));
}
static void fam_opts(void)
{
    int a, b, c, i, k, built = 0;
    const char *av[60];
    opt_t o;
#define BUILD() do { if (!built) { filt_tree(0); t_build(); built = 1; } } while (0)
    /* every ordered pair in every spelling, also joined */
    for (a = 0; a < NAT; a++) for (b = 0; b < NAT; b++) {
        if (!mc_sel()) continue;
        BUILD();
        for (i = 0; i < 4; i++) for (k = 0; k < 4; k++) for (c = 0; c < 2; c++) {
            int n;
            if ((!AT[a].val && i > 1) || (!AT[b].val && k > 1)) continue;
            if (c && (AT[a].val || i || (k & 1))) continue;                    /* joined: -ab, -abV, -ab V */
            memset(&o, 0, sizeof o);
            o.x = -1;
            at_apply(&o, &AT[a]); at_apply(&o, &AT[b]);
            n = at_spell(&AT[a], i, av);
            if (c) {
                char *q = at_buf[at_nb++ & 63];
                if (k == 2) snprintf(q, 80, "-%c%c%s", AT[a].sh, AT[b].sh, AT[b].val); else snprintf(q, 80, "-%c%c", AT[a].sh, AT[b].sh);
                av[0] = q; n = 1;
                if (AT[b].val && k == 0) av[n++] = AT[b].val;
            } else n += at_spell(&AT[b], k, av + n);
            t_tty = (a + b + i + k) & 1;
            if ((a ^ b) & 4) av[n++] = "--";
            at_run(&o, av, n);
            t_tty = 0;
        }
    }
    /* every ordered triple, spellings in turn */
    for (a = 0; a < NAT; a++) for (b = 0; b < NAT; b++) for (c = 0; c < NAT; c++) {
        int n = 0, r, rr = mc_thorough ? 8 : 1;
        if (!mc_thorough && (a + b + c) % 2) continue;
        if (!mc_sel()) continue;
        BUILD();
        for (r = 0; r < rr; r++) {
            n = 0;
            memset(&o, 0, sizeof o);
            o.x = -1;
            at_apply(&o, &AT[a]); at_apply(&o, &AT[b]); at_apply(&o, &AT[c]);
            n += at_spell(&AT[a], (a + c + r) & 3, av + n); n += at_spell(&AT[b], (b + (r >> 1)) & 3, av + n); n += at_spell(&AT[c], (c + b + (r >> 2)) & 3, av + n);
            t_tty = (a ^ b ^ c) & 1;
            at_run(&o, av, n);
            t_tty = 0;
        }
    }
    /* all of them at once, in every rotation and direction */
    for (a = 0; a < NAT; a++) for (b = 0; b < 4; b++) for (c = 0; c < 2; c++) for (k = 0; k < 3; k++) {
        int n = 0;
        if (!mc_sel()) continue;
        BUILD();
        memset(&o, 0, sizeof o);
        o.x = -1;
        for (i = 0; i < NAT; i++) {
            const atom_t *t = &AT[(c ? a + i : a + NAT - i) % NAT];
            if ((t->sh == 'w' || t->sh == 'e') && k == 0) continue;
            if ((t->sh == 'R' || t->sh == 'M' || t->sh == 'J') && k == 1) continue;
            if (t->sh == 'J' && k == 2) continue;
            at_apply(&o, t);
            n += at_spell(t, (b + i) & 3, av + n);
        }
        at_run(&o, av, n);
    }
    /* wrong ones: one bad word among good options */
    {
        static const char *const bad[][2] = { { "-Z", 0 }, { "--foo", 0 }, { "--hidden=1", 0 }, { "--json=x", 0 }, { "-aZ", 0 }, { "-m", "x" }, { "-m", "-1" }, { "-mx", 0 }, { "--minimal-length=x", 0 }, { "--minimal-length", "1Q" }, { "-M", "1Q" }, { "-M", "" }, { "--max-size=", 0 }, { "-x", "" }, { "-x", "5 5" }, { "-j", "0" },
            { "-j", "257" }, { "-j", "x" }, { "-j", "2x" }, { "-j", "" }, { "-j", "-1" }, { "-j", "99999999999" }, { "-j", "4294967297" }, { "-j", "1.5" }, { "--threads=0", 0 }, { "-T", "0" }, { "-T", "6" }, { "-T", "x" }, { "-T", "" }, { "-T", "11" }, { "-T", "3x" }, { "--image-threshold=9", 0 },
            { "-e", "(" }, { "-w", "[" }, { "-e", "*" }, { "-w", "a{2,1}" }, { "--regex-ignore-file=(", 0 }, { "-?", 0 }, { "-1", 0 }, { "--no-json", 0 }, { "--m", "5" }, { "-J=1", 0 } };
        int nb = (int) (sizeof bad / sizeof *bad);
        for (i = 0; i < nb; i++) for (a = -1; a < NAT; a++) for (k = 0; k < 3; k++) for (c = 0; c < 2; c++) {
            int n = 0;
            if (a < 0 && k) continue;
            if (a >= 0 && k == 0 && (bad[i][0][1] == 'e' || bad[i][0][1] == 'w' || !strncmp(bad[i][0], "--reg", 5)) && (AT[a].sh == 'e' || AT[a].sh == 'w')) continue;      /* given again: the last one counts */
            if (a >= 0 && k == 2 && (AT[a].sh == 'e' || AT[a].sh == 'w') && (bad[i][0][1] == 'e' || bad[i][0][1] == 'w' || !strncmp(bad[i][0], "--reg", 5))) continue;
            if (!mc_sel()) continue;
            BUILD();
            if (a >= 0 && k) n += at_spell(&AT[a], (a + i) & 3, av);
            av[n++] = bad[i][0];
            if (bad[i][1]) av[n++] = bad[i][1];
            if (a >= 0 && k != 1) n += at_spell(&AT[a], (a + i + 1) & 3, av + n);
            av[n++] = "t/A"; av[n++] = "t/B";
            mc_desc("wrong command line");
            for (b = 0; b < n; b++) mc_desc_add(" %s", av[b]);
            t_exit = c;
            t_run(av, n);
            t_exit = 0;
            no_report(1, "wrong option or value");
        }
    }
    /* a value missing at the end, no argument at all, an argument that is not there */
    for (a = -1; a < NAT; a++) for (b = -1; b < NAT; b++) for (k = 0; k < 3; k++) for (c = 0; c < 2; c++) {
        int n = 0;
        if (b >= 0 && k && !AT[b].val) continue;
        if (b < 0 && k) continue;
        if (!mc_sel()) continue;
        BUILD();
        if (a >= 0) n += at_spell(&AT[a], (b + 1) & 3, av);
        if (b >= 0 && k == 0) n += at_spell(&AT[b], a & 3, av + n);
        if (b >= 0 && k) { char *q = at_buf[at_nb++ & 63]; if (k == 1) snprintf(q, 80, "-%c", AT[b].sh); else snprintf(q, 80, "--%s", AT[b].lg); av[n++] = q; }
        mc_desc("no argument");
        for (i = 0; i < n; i++) mc_desc_add(" %s", av[i]);
        t_exit = c;
        t_run(av, n);
        t_exit = 0;
        no_report(1, "no file or directory given");
        if (k == 0) { av[n++] = "t/missing"; t_run(av, n); no_report(1, "the argument does not exist"); }
    }
    /* help and version */
    for (a = -1; a < NAT; a++) for (b = -1; b < NAT; b++) for (k = 0; k < 4; k++) for (c = 0; c < 2; c++) {
        static const char *const hv[] = { "-h", "--help", "-V", "--version" };
        int n = 0;
        if (!mc_sel()) continue;
        BUILD();
        if (a >= 0) n += at_spell(&AT[a], (a + k) & 3, av);
        av[n++] = hv[k];
        if (b >= 0) n += at_spell(&AT[b], (b + k) & 3, av + n);
        if (c) { av[n++] = "t/A"; av[n++] = "t/B"; }
        mc_desc("help and version");
        for (i = 0; i < n; i++) mc_desc_add(" %s", av[i]);
        t_exit = 1;
        t_run(av, n);
        t_exit = 0;
        no_report(0, "help or version");
        MC_CHECK(NOUT > 0, "ftwin%s prints nothing", CMD);
        if (k < 2) for (i = 0; i < NAT; i++) {
            char w[60];
            snprintf(w, sizeof w, "--%s", AT[i].lg);
            MC_CHECK(strstr((char *) OUT, w), "the help text does not mention %s", w);
        }
    }
}

static void worker(void)
{
    void *h = dlopen("libxxhash.so.0", RTLD_NOW | RTLD_LOCAL);
    t_init();
    init_contents();
    if (h) ref_hash = (XXH128_hash_t (*)(const void *, size_t)) dlsym(h, "XXH3_128bits");
    if (!ref_hash) ref_hash = __real_XXH3_128bits;
    if (mc_is("F01") || mc_is("F02")) { fam_contents(); fam_many(); }
    if (mc_is("F02")) fam_overlap();
    if (mc_is("F03")) fam_orders();
    if (mc_is("F04")) { fam_json(); fam_many(); fam_json_same(); }
    if (mc_is("F05")) fam_filters();
    if (mc_is("F06")) fam_ignore();
    if (mc_is("F10")) fam_prio();
    if (mc_is("F13")) fam_opts();
    t_remove();
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    return mc_run(worker);
}
