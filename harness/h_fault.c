/* F07, F09: the whole program with a failing call at every position, files changing between the scan and every later
 * opening, unreadable files and directories; and the state of the tree, descriptors and temporary files afterwards. */
#include "tree.h"
#include "checksum.h"
#include <archive.h>
#include <archive_entry.h>
#include "ft_config.h"
#include "ft_file.h"
#include "ft_process.h"
#include "ft_report.h"
#include "ft_report_json.h"
#include "napr_hash.h"
#include "napr_heap.h"
#include <apr_general.h>
#include <apr_strings.h>

#define NB 70000
static unsigned char bigx[NB], bigy[NB], bigz[NB];
static const struct { const void *d; size_t n; } *K;
static struct { const void *d; size_t n; } KK[10];
static void init_contents(void)
{
    int i;
    for (i = 0; i < NB; i++) bigx[i] = bigy[i] = bigz[i] = (unsigned char) (i * 11 + (i >> 9));
    bigy[NB - 1] ^= 1;
    bigz[10] ^= 1;
    KK[0].d = ""; KK[0].n = 0;
    KK[1].d = "alpha beta"; KK[1].n = 10;
    KK[2].d = "alpha betb"; KK[2].n = 10;
    KK[3].d = "cde"; KK[3].n = 3;
    KK[4].d = "cdf"; KK[4].n = 3;
    KK[5].d = bigx; KK[5].n = NB;
    KK[6].d = bigy; KK[6].n = NB;
    KK[7].d = bigz; KK[7].n = NB;
    K = (const void *) KK;
}

typedef struct { int n; struct { const char *p; int k; } f[9]; int na; const char *args[5]; } scen_t;
static const scen_t scen[] = {
    { 4, { { "t/a", 1 }, { "t/b", 1 }, { "t/c", 3 }, { "t/d", 3 } }, 1, { "t" } },
    { 5, { { "t/a", 1 }, { "t/b", 2 }, { "t/c", 1 }, { "t/d", 2 }, { "t/e", 1 } }, 1, { "t" } },
    { 6, { { "t/e", 3 }, { "t/s/a", 1 }, { "t/s/b", 1 }, { "t/u/c", 1 }, { "t/u/d", 3 }, { "t/u/v/f", 3 } }, 1, { "t" } },
    { 5, { { "t/a", 5 }, { "t/b", 5 }, { "t/c", 6 }, { "t/d", 3 }, { "t/e", 3 } }, 1, { "t" } },
    { 6, { { "t/a", 0 }, { "t/b", 0 }, { "t/c", 3 }, { "t/d", 3 }, { "t/e", 3 }, { "t/f", 0 } }, 1, { "t" } },
    { 4, { { "t/a", 5 }, { "t/b", 5 }, { "t/c", 3 }, { "t/d", 3 } }, 1, { "t" } },
    { 6, { { "t0", 1 }, { "t1", 1 }, { "t2/x", 1 }, { "t2/y", 3 }, { "t3", 3 }, { "t4", 4 } }, 5, { "t0", "t1", "t2", "t3", "t4" } },
    { 7, { { "t/a", 3 }, { "t/b", 3 }, { "t/c", 4 }, { "t/d", 4 }, { "t/e", 3 }, { "t/f", 1 }, { "t/g", 1 } }, 1, { "t" } },
};
#define NSCEN ((int) (sizeof scen / sizeof *scen))
static const struct { int J, x; } modes[] = { { 0, -1 }, { 1, -1 }, { 0, 0 }, { 1, 0 } };

/* ---- expectation ---- */
enum { NORMAL, OPTIONAL, FORBIDDEN };
typedef struct { const char *p; int st, nv, waive; struct { const unsigned char *d; size_t n; } v[2]; } mf_t;
static mf_t M[16];
static int NMF, err_ok, waive_all;
static void m_init(const scen_t *s)
{
    int i;
    NMF = s->n; err_ok = waive_all = 0;
    for (i = 0; i < s->n; i++) {
        memset(&M[i], 0, sizeof M[i]);
        M[i].p = s->f[i].p; M[i].nv = 1;
        M[i].v[0].d = K[s->f[i].k].d; M[i].v[0].n = K[s->f[i].k].n;
    }
}
static int m_find(const char *p)
{
    int i;
    size_t l = strlen(mc_dir);
    char b[8192];
    if (p[0] == '/') { if (!realpath(".", b)) mc_error("realpath"); l = strlen(b); if (strncmp(p, b, l) || p[l] != '/') return -1; p += l + 1; }
    for (i = 0; i < NMF; i++) if (!strcmp(M[i].p, p)) return i;
    return -1;
}
static int same(const mf_t *a, int va, const mf_t *b, int vb) { return a->v[va].n == b->v[vb].n && !memcmp(a->v[va].d, b->v[vb].d, a->v[va].n); }
static int m_judge(const opt_t *o)
{
    int i, j, v, in[16];
    XXH128_hash_t w;
    if (RC) {
        if (!err_ok) mc_fail(NULL, "ftwin%s ends with an error although only one file is affected", CMD);
        if (NOUT) mc_fail(NULL, "ftwin%s ends with an error after reporting something", CMD);
        return 1;
    }
    if (o->J) g_parse_json(0);
    else g_parse_text('\n', 0);
    for (i = 0; i < NMF; i++) in[i] = -1;
    for (i = 0; i < NG; i++) {
        int a = -1, ok, pure = 1;
        if (G[i].n < 2) mc_fail(NULL, "ftwin%s reports a group of one file", CMD);
        for (j = 0; j < G[i].n; j++) {
            int x = m_find(G[i].m[j].path);
            if (x < 0) { mc_fail(NULL, "ftwin%s lists the unknown file %s", CMD, G[i].m[j].path); return 0; }
            if (in[x] >= 0) mc_fail(NULL, "ftwin%s lists %s twice", CMD, M[x].p);
            if (M[x].st == FORBIDDEN) mc_fail(NULL, "ftwin%s lists %s, which could not be read", CMD, M[x].p);
            if (M[x].st != NORMAL) pure = 0;
            in[x] = i;
            if (a < 0 || M[x].nv < M[a].nv) a = x;
        }
        for (v = 0, ok = 0; v < M[a].nv && !ok; v++) {
            ok = 1;
            for (j = 0; j < G[i].n && ok; j++) {
                int x = m_find(G[i].m[j].path);
                ok = same(&M[a], v, &M[x], 0) || (M[x].nv > 1 && same(&M[a], v, &M[x], 1));
            }
        }
        if (!ok) mc_fail(NULL, "ftwin%s reports %s and others as duplicates although they differ", CMD, M[a].p);
        if (o->J && pure) {
            char hx[40];
            w = XXH3_128bits(M[a].v[0].d, M[a].v[0].n);
            snprintf(hx, sizeof hx, "%016llx%016llx", (unsigned long long) w.high64, (unsigned long long) w.low64);
            if (G[i].size != (long long) M[a].v[0].n || strcasecmp(hx, G[i].hash)) mc_fail(NULL, "ftwin%s: wrong size or checksum in the group of %s", CMD, M[a].p);
        }
    }
    if (waive_all) return 1;
    for (i = 0; i < NMF; i++) {
        int waived = 0;
        if (M[i].st != NORMAL) continue;
        for (j = 0; j < NMF; j++)
            if (M[j].waive && (same(&M[i], 0, &M[j], 0) || (M[j].nv > 1 && same(&M[i], 0, &M[j], 1)))) waived = 1;
        if (waived) continue;
        for (j = 0; j < NMF; j++)
            if (j != i && M[j].st == NORMAL && same(&M[i], 0, &M[j], 0) && (in[i] < 0 || in[i] != in[j]))
                mc_fail(NULL, "ftwin%s does not report %s and %s together, which are identical and readable", CMD, M[i].p, M[j].p);
    }
    return 1;
}

/* ---- running ---- */
static void build(const scen_t *s)
{
    int i;
    t_clear();
    for (i = 0; i < s->n; i++) t_file(K[s->f[i].k].d, K[s->f[i].k].n, s->f[i].p);
    t_build();
}
static void go(const scen_t *s, const opt_t *o)
{
    const char *av[64];
    int n = o_argv(o, av), i;
    for (i = 0; i < s->na; i++) av[n++] = s->args[i];
    t_run(av, n);
}
typedef struct { int kind; char path[MAXP]; } ev_t;
static ev_t L[MAXEV];
static int NL;
static void dry(const scen_t *s, const opt_t *o)
{
    int i;
    memset(&FT, 0, sizeof FT);
    FT.at = FT.at2 = -1;
    build(s);
    go(s, o);
    m_init(s);
    m_judge(o);
    NL = R->nev;
    if (NL > MAXEV) mc_error("too many events");
    for (i = 0; i < NL; i++) { L[i].kind = R->ev[i].kind; snprintf(L[i].path, MAXP, "%s", R->ev[i].path); }
}
static const int errs[][5] = {
    { 0 }, { EACCES, ENOENT, EMFILE, EIO }, { ENOMEM, ENODEV, EACCES }, { EIO, EISDIR }, { EIO }, { EACCES, ENOENT, EIO, ELOOP },
    { EACCES, EMFILE, ENOENT }, { EIO }, { EIO, EINTR }, { EINVAL }, { EIO }
};
static int is_arg(const scen_t *s, const char *p) { int i; for (i = 0; i < s->na; i++) if (!strcmp(s->args[i], p)) return 1; return 0; }
static int under(const char *p, const char *d) { size_t l = strlen(d); return !strncmp(p, d, l) && (!p[l] || p[l] == '/'); }
/* what a failure of one call on path p may change */
static void m_effect(const scen_t *s, int kind, const char *p, int persistent)
{
    int i;
    if ((kind == EV_STAT || kind == EV_OPENDIR || kind == EV_READDIR) && is_arg(s, p)) err_ok = 1;
    for (i = 0; i < NMF; i++) {
        if (!under(M[i].p, p)) continue;
        switch (kind) {
        case EV_MMAP: break;
        case EV_STAT: case EV_OPENDIR: M[i].st = OPTIONAL; break;
        case EV_READDIR: M[i].st = OPTIONAL; break;
        default:
            if (persistent && M[i].v[0].n) M[i].st = FORBIDDEN;
            else { M[i].st = OPTIONAL; if (!persistent) M[i].waive = 1; }
        }
    }
}
static uint64_t tree_hash(void);
static uint64_t H0;
static void describe_fault(const scen_t *s, int m, const char *what)
{
    mc_desc("scenario %d mode %d: %s", (int) (s - scen), m, what);
    t_describe();
}
static void after09(const scen_t *s, const opt_t *o);
static int one_errs;            /* quick variant: the first errno of each kind only */

static void fam_single(const scen_t *s, int m)
{
    opt_t o = { .x = modes[m].x, .J = modes[m].J, .threads = 1 };
    int n, e;
    char w[400];
    if (!mc_sel()) return;
    t_dirorder = 1;
    describe_fault(s, m, "dry run");
    dry(s, &o);
    if (mc_is("F09")) { H0 = tree_hash(); }
    for (n = 0; n < NL; n++)
        for (e = 0; e < 5 && errs[L[n].kind][e]; e++) {
            if (one_errs && e) break;
            FT.at = n; FT.at2 = -1; FT.err = errs[L[n].kind][e]; FT.persist = 0; FT.kind = 0;
            snprintf(w, sizeof w, "event %d, %s of %s, fails with %s", n, ev_name[L[n].kind], L[n].path, strerror(FT.err));
            describe_fault(s, m, w);
            go(s, &o);
            m_init(s);
            m_effect(s, L[n].kind, L[n].path, 0);
            if (mc_is("F07")) m_judge(&o);
            else after09(s, &o);
            mc_trace(1);
            mc_state(mc_hash(&n, sizeof n, (uint64_t) (s - scen) * 64 + (uint64_t) m));
            mc_outcome(mc_hash(OUT, NOUT, (uint64_t) m));
        }
    FT.at = -1;
}
static void fam_double(const scen_t *s, int m)
{
    opt_t o = { .x = modes[m].x, .J = modes[m].J, .threads = 1 };
    int n, k;
    char w[600];
    t_dirorder = 1;
    if (!mc_sel()) return;
    describe_fault(s, m, "dry run");
    dry(s, &o);
    for (n = 0; n < NL; n++)
        for (k = n + 1; k < NL + 4; k++) {
            FT.at = n; FT.at2 = k; FT.err = EIO; FT.persist = 0;
            snprintf(w, sizeof w, "event %d, %s of %s, and event %d fail", n, ev_name[L[n].kind], L[n].path, k);
            describe_fault(s, m, w);
            go(s, &o);
            m_init(s);
            m_effect(s, L[n].kind, L[n].path, 0);
            if (k < R->nev) m_effect(s, R->ev[k].kind, R->ev[k].path, 0);
            m_judge(&o);
            mc_trace(1);
            mc_outcome(mc_hash(OUT, NOUT, (uint64_t) m));
        }
    FT.at = FT.at2 = -1;
}
static void fam_persist(const scen_t *s, int m)
{
    static const int kinds[] = { EV_OPEN, EV_READ, EV_MMAP, EV_STAT, EV_FSTAT, EV_OPENDIR, EV_CLOSE };
    opt_t o = { .x = modes[m].x, .J = modes[m].J, .threads = 1 };
    int i, k, n;
    char w[600];
    if (!mc_sel()) return;
    t_dirorder = 1;
    describe_fault(s, m, "dry run");
    dry(s, &o);
    for (n = 0; n < NL; n++) {
        int seen = 0;
        for (i = 0; i < n; i++) if (!strcmp(L[i].path, L[n].path)) seen = 1;
        if (seen) continue;
        for (k = 0; k < 7; k++) {
            FT.at = 0; FT.at2 = -1; FT.persist = 1; FT.kind = kinds[k]; FT.err = k == 0 ? EACCES : EIO;
            snprintf(FT.path, sizeof FT.path, "%s", L[n].path);
            snprintf(w, sizeof w, "every %s of %s fails", ev_name[kinds[k]], L[n].path);
            describe_fault(s, m, w);
            go(s, &o);
            m_init(s);
            for (i = 0; i < R->nev; i++) if (R->ev[i].kind == kinds[k] && !strcmp(R->ev[i].path, L[n].path)) break;
            if (i < R->nev) m_effect(s, kinds[k], L[n].path, 1);
            if (kinds[k] == EV_FSTAT || kinds[k] == EV_CLOSE) for (i = 0; i < NMF; i++) if (M[i].st == FORBIDDEN) M[i].st = OPTIONAL;
            m_judge(&o);
            mc_trace(1);
            mc_outcome(mc_hash(OUT, NOUT, (uint64_t) m));
        }
    }
    memset(&FT, 0, sizeof FT);
    FT.at = FT.at2 = -1;
}

/* ---- changing files ---- */
enum { MD_ZERO, MD_HALF, MD_CUT1, MD_APPEND, MD_APPENDZ, MD_FLIP, MD_OTHER, MD_ZTAIL, MD_LONGER, MD_DELETE, MD_DIR, NMD };
static const char *const md_name[] = { "emptied", "truncated to half", "truncated by one byte", "appended to", "extended with zeros", "changed in its last byte", "given the contents of another file", "zeroed in its second half",
    "replaced by a longer file with the same start", "deleted", "replaced by a directory" };
static struct { int md; char path[MAXP]; unsigned char *d; size_t n; } MOD[2];
static int NMOD;
static void do_modify(void)
{
    int i;
    for (i = 0; i < NMOD; i++) {
        if (MOD[i].md == MD_DELETE) unlink(MOD[i].path);
        else if (MOD[i].md == MD_DIR) { unlink(MOD[i].path); mkdir(MOD[i].path, 0755); }
        else if (MOD[i].md == MD_LONGER) { t_write("tmp.new", MOD[i].d, MOD[i].n); rename("tmp.new", MOD[i].path); }
        else if (MOD[i].md <= MD_CUT1) { if (truncate(MOD[i].path, (off_t) MOD[i].n)) _exit(97); }
        else if (MOD[i].md == MD_APPENDZ) { if (truncate(MOD[i].path, (off_t) MOD[i].n)) _exit(97); }
        else { int fd = open(MOD[i].path, O_WRONLY); if (fd < 0 || write(fd, MOD[i].d, MOD[i].n) != (ssize_t) MOD[i].n) _exit(97); close(fd); }
    }
}
/* prepares MOD[slot] for file f; returns 0 when the modification makes no sense there */
static int mod_prepare(const scen_t *s, int slot, int f, int md)
{
    static unsigned char b[2][NB + 64];
    const unsigned char *d = K[s->f[f].k].d;
    size_t n = K[s->f[f].k].n;
    int g;
    if (n == 0) return 0;
    memcpy(b[slot], d, n);
    memset(b[slot] + n, 0, 64);
    MOD[slot].md = md; MOD[slot].d = b[slot]; MOD[slot].n = n;
    snprintf(MOD[slot].path, MAXP, "%s", s->f[f].p);
    switch (md) {
    case MD_ZERO: MOD[slot].n = 0; break;
    case MD_HALF: MOD[slot].n = n / 2; break;
    case MD_CUT1: MOD[slot].n = n - 1; break;
    case MD_APPEND: b[slot][n] = 'z'; b[slot][n + 1] = (unsigned char) ('0' + f); MOD[slot].n = n + 2; break;
    case MD_APPENDZ: MOD[slot].n = n + 3; break;
    case MD_FLIP: b[slot][n - 1] ^= 0x41; break;
    case MD_OTHER:
        for (g = 0; g < s->n; g++) if (K[s->f[g].k].n == n && s->f[g].k != s->f[f].k) break;
        if (g == s->n) return 0;
        memcpy(b[slot], K[s->f[g].k].d, n);
        break;
    case MD_ZTAIL: memset(b[slot] + n / 2, 0, n - n / 2); break;
    case MD_LONGER: b[slot][n] = 'q'; MOD[slot].n = n + 1; break;
    }
    return 1;
}
static void mod_expect(int slot, int strict)
{
    int x = m_find(MOD[slot].path);
    mf_t *f = &M[x];
    int gone = MOD[slot].md == MD_DELETE || MOD[slot].md == MD_DIR;
    size_t n0 = f->v[0].n;
    if (strict) {
        if (gone) { f->st = FORBIDDEN; return; }
        f->v[0].d = MOD[slot].d; f->v[0].n = MOD[slot].n;
        if (MOD[slot].n != n0) f->st = OPTIONAL;
    }
    else {
        f->st = OPTIONAL; f->waive = 1;
        if (!gone) { f->v[1].d = MOD[slot].d; f->v[1].n = MOD[slot].n; f->nv = 2; }
    }
}
static void fam_change(const scen_t *s, int m)
{
    opt_t o = { .x = modes[m].x, .J = modes[m].J, .threads = 1 };
    int f, md, n, k, i, j, built = 0;
    char w[600];
    for (f = 0; f < s->n; f++) for (md = 0; md < NMD; md++) {
        if (!mc_sel()) continue;
        if (!mod_prepare(s, 0, f, md)) continue;
        t_dirorder = 1;
        NMOD = 1;
        if (!built) { describe_fault(s, m, "dry run"); dry(s, &o); built = 1; }
        for (n = k = 0; n < NL; n++) {
            int strict;
            if (L[n].kind != EV_OPEN || strcmp(L[n].path, s->f[f].p)) continue;
            strict = k == 0;
            if (k == 1) {
                int bucket = 0, opened = 0;
                for (i = 0; i < s->n; i++)
                    if (K[s->f[i].k].n == K[s->f[f].k].n) {
                        bucket++;
                        for (j = 0; j < n; j++) if (L[j].kind == EV_OPEN && !strcmp(L[j].path, s->f[i].p)) { opened++; break; }
                    }
                strict = (o.J || bucket > 2) && opened == bucket;
            }
            k++;
            FT.at = n; FT.at2 = -1; FT.modify = do_modify; FT.persist = 0; FT.err = 0;
            snprintf(w, sizeof w, "%s is %s before its opening number %d (event %d)", s->f[f].p, md_name[md], k, n);
            describe_fault(s, m, w);
            build(s);
            go(s, &o);
            if (!R->hit) mc_error("the change did not happen");
            m_init(s);
            mod_expect(0, strict);
            if (k > 1) { int x = m_find(MOD[0].path); if (M[x].st == NORMAL) M[x].st = OPTIONAL; }      /* the checksum may be the old one */
            m_judge(&o);
            mc_trace(1);
            mc_state(mc_hash(w, strlen(w), (uint64_t) (s - scen) * 64 + (uint64_t) m));
            mc_outcome(mc_hash(OUT, NOUT, (uint64_t) m));
        }
        memset(&FT, 0, sizeof FT);
        FT.at = FT.at2 = -1;
    }
}
/* two files change between the scan and the first opening of any file */
static void fam_change2(const scen_t *s, int m)
{
    opt_t o = { .x = modes[m].x, .J = modes[m].J, .threads = 1 };
    int f, g, md, m2, n;
    char w[600];
    for (f = 0; f < s->n; f++) for (g = f + 1; g < s->n; g++) {
        if (!mc_sel()) continue;
        t_dirorder = 1;
        describe_fault(s, m, "dry run");
        dry(s, &o);
        for (n = 0; n < NL; n++) if (L[n].kind == EV_OPEN) break;
        if (n == NL) continue;
        for (md = 0; md < NMD; md++) for (m2 = 0; m2 < NMD; m2++) {
            if (!mod_prepare(s, 0, f, md) || !mod_prepare(s, 1, g, m2)) continue;
            NMOD = 2;
            FT.at = n; FT.at2 = -1; FT.modify = do_modify; FT.persist = 0; FT.err = 0;
            snprintf(w, sizeof w, "%s is %s and %s is %s after the scan", s->f[f].p, md_name[md], s->f[g].p, md_name[m2]);
            describe_fault(s, m, w);
            build(s);
            go(s, &o);
            m_init(s);
            mod_expect(0, 1);
            mod_expect(1, 1);
            m_judge(&o);
            mc_trace(1);
            mc_outcome(mc_hash(OUT, NOUT, (uint64_t) m));
        }
        memset(&FT, 0, sizeof FT);
        FT.at = FT.at2 = -1;
    }
}

/* ---- permissions, as an ordinary user ---- */
static void fam_perm(void)
{
    static const mode_t fm[] = { 0644, 0600, 0000, 0004, 0200, 0040 };
    static const mode_t dm[] = { 0755, 0700, 0711, 0744, 0000 };
    int a, b, c, d, own, J;
    pid_t p = fork();
    int st;
    if (p == 0) _exit(setgroups(0, NULL) || setgid(65534) || setuid(65534));
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { mc_note("cannot become an ordinary user here: permission scenarios left out"); return; }
    chmod(".", 0755);
    chmod("..", 0755);
    for (a = 0; a < 6; a++) for (b = 0; b < 6; b++) for (c = 0; c < 6; c++) for (d = 0; d < 5; d++) for (own = 0; own < 4; own++) for (J = 0; J < 2; J++) {
        static const scen_t s = { 5, { { "t/a", 1 }, { "t/b", 1 }, { "t/d/c", 1 }, { "t/d/e", 3 }, { "t/f", 3 } }, 1, { "t" } };
        opt_t o = { .x = -1, .J = J, .threads = 1 };
        mode_t md[5] = { fm[a], fm[b], fm[c], 0644, 0644 };
        int i, sh, left = 0;
        if (!mc_sel()) continue;
        build(&s);
        sh = own == 0 ? 0 : own == 1 ? 6 : 3;                       /* 3: by a supplementary group */
        for (i = 0; i < 5; i++) {
            if (chmod(s.f[i].p, md[i])) mc_error("chmod");
            if (own && chown(s.f[i].p, own == 1 ? 65534 : 0, own == 2 ? 65534 : own == 3 ? 4711 : 0)) mc_error("chown");
        }
        if (chmod("t/d", dm[d]) || (own && chown("t/d", own == 1 ? 65534 : 0, own == 2 ? 65534 : own == 3 ? 4711 : 0))) mc_error("chmod");
        m_init(&s);
        for (i = 0; i < 5; i++) {
            int ok = md[i] >> sh & 4;
            if (i == 2 || i == 3) ok = ok && (dm[d] >> sh & 5) == 5;
            if (!ok) M[i].st = FORBIDDEN;
            else left++;
        }
        if (!left) err_ok = 1;
        mc_desc("as uid 65534: modes a %o b %o d/c %o, directory d %o, owner kind %d", fm[a], fm[b], fm[c], dm[d], own);
        t_uid = 65534;
        t_sgid = own == 3 ? 4711 : 4712;
        go(&s, &o);
        t_uid = t_sgid = 0;
        m_judge(&o);
        mc_trace(1);
        mc_outcome(mc_hash(OUT, NOUT, (uint64_t) J));
        chmod("t/d", 0755);
    }
}

/* ---- F09 ---- */
static uint64_t th_acc;
static int th_cb(const char *p, const struct stat *st, int t, struct FTW *f)
{
    struct { uint64_t ino, size, mode, uid, gid, nlink; struct timespec m, c; } x;
    uint64_t h;
    (void) t; (void) f;
    memset(&x, 0, sizeof x);
    x.ino = st->st_ino; x.size = S_ISDIR(st->st_mode) ? 0 : (uint64_t) st->st_size; x.mode = st->st_mode; x.uid = st->st_uid; x.gid = st->st_gid; x.nlink = st->st_nlink; x.m = st->st_mtim; x.c = st->st_ctim;
    h = mc_hash(&x, sizeof x, mc_hash(p, strlen(p), 9));
    if (S_ISREG(st->st_mode)) {
        static unsigned char b[1 << 17];
        int fd = open(p, O_RDONLY | O_NOATIME);
        ssize_t n = fd >= 0 ? read(fd, b, sizeof b) : 0;
        if (fd >= 0) close(fd);
        h ^= mc_hash(b, n > 0 ? (size_t) n : 0, 77);
    }
    th_acc += h;
    return 0;
}
static uint64_t tree_hash(void)
{
    th_acc = 1;
    nftw(".", th_cb, 20, FTW_PHYS);
    return th_acc;
}
static void tmp_left(void)
{
    int i, bad = 0;
    char first[MAXP] = "";
    for (i = 0; i < R->ncr && i < MAXCR; i++)
        if (access(R->created[i], F_OK) == 0) {
            if (!bad++) snprintf(first, sizeof first, "%s", R->created[i]);
            if (!strncmp(R->created[i], "/tmp/ftwin", 10)) unlink(R->created[i]);
        }
    if (bad) mc_fail(NULL, "ftwin%s leaves the file %s behind", CMD, first);
}
static int fd_limit = 8, map_limit = 8;
static void after09(const scen_t *s, const opt_t *o)
{
    (void) s; (void) o;
    if (R->nmut) mc_fail(NULL, "ftwin%s: %s", CMD, R->mut);
    if (tree_hash() != H0) mc_fail(NULL, "ftwin%s changed the scanned tree", CMD);
    tmp_left();
    if (R->maxfd > fd_limit) mc_fail(NULL, "ftwin%s has %d files of the tree open at once", CMD, R->maxfd);
    if (R->maxmap > map_limit) mc_fail(NULL, "ftwin%s has %d mappings of files of the tree at once", CMD, R->maxmap);
}
static void rich_tree(int n)
{
    int i;
    static char nm[700][32];
    t_clear();
    for (i = 0; i < n; i++) { snprintf(nm[i], 32, "t/d%d/f%03d", i % 3, i); t_file(K[1 + i % 4].d, K[1 + i % 4].n, nm[i]); }
    t_file(K[5].d, K[5].n, "t/big1.png"); t_file(K[5].d, K[5].n, "t/big2.tar");
    t_file(K[6].d, K[6].n, "t/.hid"); t_file(K[0].d, 0, "t/e1"); t_file(K[0].d, 0, "t/d0/e2");
    t_file("*.o\n", 4, "t/.gitignore");
    t_link("d0/f000", "t/lnk"); t_link("d1", "t/ldir"); t_link("nowhere", "t/broken");
    t_add('D', NULL, 0, "t/empty");
    t_build();
}
static void fam_options(void)
{
    static const char *const fl[] = { "-a", "-c", "-d", "-f", "-n", "-R", "-v", "-t", "-J", "-x0", "-o" };
    int v, i, im;
    for (v = 0; v < 2048; v++) for (im = 0; im < 3; im++) {
        const char *av[40];
        int n = 0;
        if (im == 1 && (v & ~0x28)) continue;                       /* image mode: its own options only */
        if (im == 2 && (v & 0x1c4)) continue;
        if (!mc_sel()) continue;
        rich_tree(8);
        for (i = 0; i < 11; i++) if (v >> i & 1) av[n++] = fl[i];
        if (im == 1) { av[n++] = "-I"; av[n++] = "-w"; av[n++] = "big"; }
        if (im == 2) { av[n++] = "-p"; av[n++] = "t/d1"; av[n++] = "-e"; av[n++] = "f003"; av[n++] = "-i"; av[n++] = "f004"; av[n++] = "-m"; av[n++] = "1"; av[n++] = "-s"; av[n++] = ","; }
        av[n++] = "-j"; av[n++] = v & 1 ? "3" : "1";
        av[n++] = "t";
        H0 = tree_hash();
        mc_desc("options");
        for (i = 0; i < n; i++) mc_desc_add(" %s", av[i]);
        t_dirorder = 1;
        t_run(av, n);
        fd_limit = map_limit = 8;
        after09(NULL, NULL);
        mc_trace(1);
        mc_outcome(mc_hash(OUT, NOUT, 1));
        mc_state((uint64_t) v * 3 + (uint64_t) im);
    }
}
/* few descriptors, many files: the result is still right */
static void fam_nofile(void)
{
    int n, lim, J, x, ma, th, same_, hit = 0;
    static const int ns[] = { 3, 30, 200 };
    (void) hit;
    for (n = 0; n < 3; n++) for (lim = 14; lim <= 40; lim += 13) for (J = 0; J < 2; J++) for (x = 0; x < 2; x++) for (ma = 0; ma < 3; ma++) for (th = 1; th < 4; th += 2) for (same_ = 0; same_ < 2; same_++) {
        static char nm[200][32];
        static const char *av[20];
        const char *args[] = { "t" }, *pr[1];
        char pb[9000], rp[8192];
        opt_t o = { .x = x ? 0 : -1, .J = J, .threads = th };
        int i, k;
        if (!mc_sel()) continue;
        t_clear();
        for (i = 0; i < ns[n]; i++) { snprintf(nm[i], 32, "t/d%d/f%03d", i % 3, i); t_file(same_ ? K[1].d : i % 2 ? K[3].d : K[4].d, same_ ? K[1].n : 3, nm[i]); }
        t_build();
        H0 = tree_hash();
        if (!realpath(".", rp)) mc_error("realpath");
        snprintf(pb, sizeof pb, "%s/t", rp);
        pr[0] = J ? pb : "t";
        sel_compute(&o, pr, args, 1);
        k = o_argv(&o, av);
        av[k++] = "t";
        memset(&FT, 0, sizeof FT);
        FT.at = FT.at2 = -1;
        FT.mmap_all = ma;           /* 1: all mappings refused, 2: every second one */
        t_nofile = (unsigned) (lim + 2 * th);
        t_dirorder = 0;
        mc_desc("%d files, descriptor limit %u, %s", ns[n], t_nofile, ma == 0 ? "mappings work" : ma == 1 ? "no mappings" : "every second mapping fails");
        t_run(av, k);
        t_nofile = 0; FT.mmap_all = 0;
        fd_limit = map_limit = 2 * th + 4;
        if (RC) mc_fail(NULL, "ftwin%s fails with few descriptors", CMD);
        if (J) g_parse_json(0);
        else g_parse_text('\n', 0);
        for (i = 0; i < NG; i++) {
            int j, f0 = sel_index(G[i].m[0].path), c = 0;
            if (f0 < 0) { mc_fail(NULL, "unknown file listed"); return; }
            for (j = 0; j < NSEL; j++) c += SEL[j].grp == SEL[f0].grp;
            if (c != G[i].n) mc_fail(NULL, "ftwin%s lists %d of %d identical files", CMD, G[i].n, c);
        }
        k = 0;
        for (i = 0; i < NSEL; i++) if (SEL[i].grp >= k) k = SEL[i].grp + 1;
        if (k != NG) mc_fail(NULL, "ftwin%s reports %d of %d groups", CMD, NG, k);
        after09(NULL, NULL);
        mc_trace(1);
        mc_state(mc_index());
        mc_outcome(mc_hash(OUT, NOUT, 1));
    }
}
/* archive members as files: built into the heap directly, as the scan does not enter archives */
static int untar_j, untar_n;
static const struct { const char *member; int k; int arch; } MEMB[] = { { "m/a", 1, 0 }, { "b", 1, 0 }, { "c", 2, 1 }, { "dd", 1, 1 }, { "zz", 5, 0 }, { "yy", 5, 1 }, { "missing", 1, 0 } };
static const int untar_sets[][5] = { { 0, 1, -1 }, { 0, 1, 2, -1 }, { 0, 1, 2, 3, -1 }, { 4, 5, -1 }, { 0, 6, -1 }, { 0, 1, 6, -1 }, { 6, 0, 1, 3, -1 } };
static int untar_body(int argc, const char **argv)
{
    apr_pool_t *pool;
    ft_conf_t *conf;
    int first, i, n = 0;
    const int *set = untar_sets[untar_n];
    apr_status_t st;
    apr_initialize();
    apr_pool_create(&pool, NULL);
    conf = ft_config_create(pool);
    if (ft_config_parse_args(conf, argc, argv, &first)) return 1;
    for (i = 0; set[i] >= 0; i++) n++;
    for (i = 0; i <= n; i++) {
        ft_file_t *f = apr_pcalloc(pool, sizeof *f);
        apr_uint32_t h;
        ft_fsize_t *fs;
        if (i < n) {
            f->path = apr_pstrdup(pool, MEMB[set[i]].arch ? "t/y.tar" : "t/x.tar");
            f->subpath = apr_pstrdup(pool, MEMB[set[i]].member);
            f->size = (apr_off_t) K[MEMB[set[i]].k].n;
        }
        else { f->path = apr_pstrdup(pool, "t/plain"); f->size = (apr_off_t) K[MEMB[set[0]].k].n; }
        napr_heap_insert(conf->heap, f);
        fs = napr_hash_search(conf->sizes, &f->size, sizeof(apr_off_t), &h);
        if (!fs) { fs = apr_pcalloc(pool, sizeof *fs); fs->val = f->size; napr_hash_set(conf->sizes, fs, h); }
        fs->nb_files++;
    }
    st = ft_process_files(conf);
    if (!st) st = untar_j ? ft_report_json(conf) : ft_report_duplicates(conf);
    apr_terminate();
    return st ? 1 : 0;
}
static void put_tar(const char *path, int arch)
{
    struct archive *a = archive_write_new();
    int i;
    archive_write_set_format_ustar(a);
    if (arch) archive_write_add_filter_gzip(a);
    if (archive_write_open_filename(a, path)) mc_error("archive");
    for (i = 0; i < 6; i++)
        if (MEMB[i].arch == arch) {
            struct archive_entry *e = archive_entry_new();
            archive_entry_set_pathname(e, MEMB[i].member);
            archive_entry_set_size(e, (la_int64_t) K[MEMB[i].k].n);
            archive_entry_set_filetype(e, AE_IFREG);
            archive_entry_set_perm(e, 0644);
            archive_write_header(a, e);
            archive_write_data(a, K[MEMB[i].k].d, K[MEMB[i].k].n);
            archive_entry_free(e);
        }
    archive_write_free(a);
}
static void fam_untar(void)
{
    int s, J, n, N, e;
    for (s = 0; s < 7; s++) for (J = 0; J < 2; J++) {
        const char *av[] = { "-t", "-j", "1", J ? "-J" : "-a", "t" };
        if (!mc_sel()) continue;
        t_clear();
        t_file(K[MEMB[untar_sets[s][0]].k].d, K[MEMB[untar_sets[s][0]].k].n, "t/plain");
        t_build();
        put_tar("t/x.tar", 0);
        put_tar("t/y.tar", 1);
        H0 = tree_hash();
        untar_n = s; untar_j = J;
        t_body = untar_body;
        memset(&FT, 0, sizeof FT);
        FT.at = FT.at2 = -1;
        fd_limit = map_limit = 24;
        mc_desc("archive members, set %d, json %d", s, J);
        t_run(av, 5);
        N = R->nev;
        if (R->ncr == 0) mc_error("no temporary file seen");
        after09(NULL, NULL);
        for (n = 0; n < N; n++) for (e = 0; e < 2; e++) {
            FT.at = n; FT.err = e ? EMFILE : EIO;
            mc_desc("archive members, set %d, json %d, event %d fails", s, J, n);
            t_run(av, 5);
            after09(NULL, NULL);
            mc_trace(1);
            mc_outcome(mc_hash(OUT, NOUT, 1));
            mc_state(mc_hash(&n, sizeof n, (uint64_t) (s * 2 + J)));
        }
        FT.at = -1;
        t_body = NULL;
    }
}

static void worker(void)
{
    int s, m;
    t_init();
    init_contents();
    if (mc_is("F07")) {
        for (s = 0; s < NSCEN; s++) for (m = 0; m < 4; m++) {
            fam_single(&scen[s], m);
            fam_persist(&scen[s], m);
            fam_change(&scen[s], m);
            if (mc_thorough || (s != 3 && s != 5 && s != 7 && m < 2)) fam_change2(&scen[s], m);
            if (mc_thorough || (s < 2 && m < 2)) fam_double(&scen[s], m);
        }
        fam_perm();
    }
    if (mc_is("F09")) {
        one_errs = !mc_thorough;
        fd_limit = map_limit = 8;
        for (s = 0; s < NSCEN; s++) for (m = 0; m < 4; m++) fam_single(&scen[s], m);
        fam_options();
        fam_nofile();
        fam_untar();
    }
    t_remove();
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    return mc_run(worker);
}
