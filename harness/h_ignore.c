/* F06: ignore patterns, the real ft_ignore against the gitignore reference (gitref.h). */
#define _GNU_SOURCE
#include "mc.h"
#include "gitref.h"
#include <apr_general.h>
#include <apr_pools.h>
#include <unistd.h>
#include <fcntl.h>
#include "ft_ignore.h"

static apr_pool_t *root;
/* what the regex library allocated for a case is released with the case, whether or not the program does it itself */
struct chunk { struct chunk *next, **prev; };
static struct chunk *chunks;
static void *take(size_t n)
{
    struct chunk *c = malloc(sizeof *c + n);
    if (!c) return NULL;
    c->next = chunks; c->prev = &chunks;
    if (chunks) chunks->prev = &c->next;
    chunks = c;
    return c + 1;
}
static void give(void *p)
{
    struct chunk *c = (struct chunk *) p - 1;
    if (!p) return;
    *c->prev = c->next;
    if (c->next) c->next->prev = c->prev;
    free(c);
}
static void drop(apr_pool_t *p)
{
    apr_pool_destroy(p);
    while (chunks) give(chunks + 1);
}
static const char *const PATHS[] = {
    "a", "b", "c", "ab", "ba", "aa", "bb", "aab", "a.b", ".a", ".", "*", "?", "[", "]", "-", "!", "^", "\\", "a b", "a ", "[a]", "#", "a-", "a]", "abc", "d", "1", "a\n", "\na", "a\nb", "A", "\xe9", "a\xff",
    "a/a", "a/b", "b/a", "b/b", "ab/a", "a/ab", "aa/b", "a/.", "a/*", "*/a", "a/[", "[/a", "a/-", "-/a", "!/a", "a/!", "a b/a", "a/a b", "\\/a", "a/a\n", "a\n/b",
    "a/a/a", "a/a/b", "a/b/a", "a/b/b", "b/a/a", "b/a/b", "b/b/a", "b/b/b", "a/c/b", "ab/ab/ab", "a/ba/b",
    "a/b/a/b", "a/a/a/a", "b/a/b/a", "a/b/c/d",
};
#define NPATH ((int) (sizeof PATHS / sizeof *PATHS))

static void show(const char *s)
{
    const unsigned char *p;
    for (p = (const unsigned char *) s; *p; p++) mc_desc_add(*p < 33 || *p > 126 ? "\\x%02x" : "%c", *p);
}
static const char *shown(const char *s)
{
    static char b[4][700];
    static int n;
    char *o = b[n = (n + 1) & 3];
    size_t l = 0;
    for (; *s && l < 600; s++) l += (size_t) sprintf(o + l, (unsigned char) *s < 33 || (unsigned char) *s > 126 ? "\\x%02x" : "%c", (unsigned char) *s);
    o[l] = 0;
    return o;
}
static int is_ign(ft_ignore_context_t *c, const char *full, int d) { return ft_ignore_match(c, full, d) == FT_IGNORE_MATCH_IGNORED; }

/* one pattern against all paths */
static uint64_t one_pattern(const char *pat, const char *const *paths, int np, const char *base)
{
    apr_pool_t *p;
    ft_ignore_context_t *c;
    int i, d;
    uint64_t h = 0, k = 0;
    char full[9000];
    size_t bl = strlen(base);
    apr_pool_create(&p, root);
    c = ft_ignore_context_create(p, NULL, base);
    ft_ignore_add_pattern_str(c, pat);
    memcpy(full, base, bl);
    if (bl && base[bl - 1] != '/') full[bl++] = '/';
    for (i = 0; i < np; i++) {
        strcpy(full + bl, paths[i]);
        for (d = 0; d < 2; d++, k++) {
            int want = gr_line(pat, paths[i], d) == 1, got = is_ign(c, full, d);
            if (want != got) mc_fail(NULL, "pattern \"%s\": %s %s is %s, git %s it", shown(pat), d ? "directory" : "file", shown(paths[i]), got ? "ignored" : "not ignored", want ? "ignores" : "does not ignore");
            if (want) h += (k + 1) * 0x9e3779b97f4a7c15ull;
        }
    }
    drop(p);
    mc_trans((uint64_t) np * 2);
    mc_eval(1);
    mc_trace(1);
    mc_state(h);
    return h;
}
static int lead_blank(const char *s) { if (*s == '!') s++; return isspace((unsigned char) *s); }    /* left open: blanks at the start */

/* left open: two or more stars that share their component with something before them */
static int mid_stars(const char *s)
{
    const char *p;
    for (p = s + 1; *p; p++) if (p[0] == '*' && p[1] == '*' && p[-1] != '*' && p[-1] != '/' && !(p == s + 1 && *s == '!')) return 1;
    return 0;
}
static void fam_patterns(void)
{
    static const char al[] = "ab*?[]/\\!-. ^";
    int n = (int) sizeof al - 1, L = mc_thorough ? 6 : 5, l, i;
    for (l = 1; l <= L; l++) {
        long v, N = 1;
        int na = l == 6 ? 10 : n;
        for (i = 0; i < l; i++) N *= na;
        for (v = 0; v < N; v += 64) {
            long u;
            if (!mc_sel()) continue;
            for (u = v; u < v + 64 && u < N; u++) {
                char p[16];
                long t = u;
                uint64_t h;
                for (i = 0; i < l; i++) { p[i] = al[t % na]; t /= na; }
                p[l] = 0;
                if (lead_blank(p) || mid_stars(p)) continue;
                mc_desc("pattern "); show(p);
                h = one_pattern(p, PATHS, NPATH, "/r");
                if (h) mc_outcome(h);
            }
        }
    }
}
/* character classes against every byte, alone and embedded */
static void fam_classes(void)
{
    static const char al[] = "ac-]^!\\[:/e*";
    static const char *const pre[] = { "", "x", "*", "/" }, *const post[] = { "", "y", "*" };
    static char names[255 * 2][8];
    static const char *paths[520];
    int n = (int) sizeof al - 1, L = mc_thorough ? 6 : 4, l, i, a, np = 0;
    for (i = 1; i < 256; i++) {
        if (i == '/') continue;
        if (i >= 128 && i % 16) continue;
        snprintf(names[np], 8, "%c", i); paths[np] = names[np]; np++;
        snprintf(names[np], 8, "x%cy", i); paths[np] = names[np]; np++;
    }
    paths[np++] = "x/y"; paths[np++] = "xay/a"; paths[np++] = "a/c"; paths[np++] = "c/a";
    for (l = 0; l <= L; l++) {
        long v, N = 1;
        for (i = 0; i < l; i++) N *= n;
        for (v = 0; v < N; v += 16) {
            long u;
            if (!mc_sel()) continue;
            for (u = v; u < v + 16 && u < N; u++) for (a = 0; a < (l > 3 ? 1 : 12); a++) {
                char p[40], b[16];
                long t = u;
                for (i = 0; i < l; i++) { b[i] = al[t % n]; t /= n; }
                b[l] = 0;
                snprintf(p, sizeof p, "%s[%s]%s", pre[a % 4], b, post[a / 4]);
                mc_desc("pattern "); show(p);
                mc_outcome(one_pattern(p, paths, np, "/r"));
            }
        }
    }
    /* longer classes out of letters, dashes, brackets and backslashes: ranges after ranges */
    for (l = 5; l <= (mc_thorough ? 7 : 6); l++) {
        static const char al2[] = "ac-e]\\";
        long v, N = 1;
        for (i = 0; i < l; i++) N *= 6;
        for (v = 0; v < N; v += 32) {
            long u;
            if (!mc_sel()) continue;
            for (u = v; u < v + 32 && u < N; u++) {
                static const char *const some[] = { "a", "b", "c", "d", "e", "-", "]", "\\", "f", "A", "a]", "b]", "-]", "e]", "d]", "a-e]", "c-e]" };
                char p[40], b[16];
                long t = u;
                for (i = 0; i < l; i++) { b[i] = al2[t % 6]; t /= 6; }
                b[l] = 0;
                snprintf(p, sizeof p, "[%s%s]", u & 1 ? "!" : "", b);
                mc_desc("pattern "); show(p);
                mc_outcome(one_pattern(p, some, 17, "/r"));
            }
        }
    }
    {
        static const char *const nm[] = { "alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit", "word", "ascii", "foo", "" };
        static const char *const f[] = { "[[:%s:]]", "[![:%s:]]", "[^[:%s:]]", "x[[:%s:]]y", "[[:%s:]-z]", "[a-[:%s:]]", "[[:%s:]e]", "[e[:%s:]", "[[:%s]", "[[:%s]:]", "x[a[:%s:][:digit:]]y", "[[:^%s:]]", "[\\[:%s:]]", "[[:%s:]" };
        int j;
        for (i = 0; i < 16; i++) for (j = 0; j < 14; j++) {
            char p[60];
            if (!mc_sel()) continue;
            snprintf(p, sizeof p, f[j], nm[i]);
            mc_desc("pattern "); show(p);
            mc_outcome(one_pattern(p, paths, np, "/r"));
        }
    }
    /* escapes of every character, every character as a literal, every pair of range ends */
    for (i = 1; i < 256; i++) for (a = 0; a < 8; a++) {
        static const char *const f[] = { "\\%c", "x\\%cy", "%c", "x%cy", "[%c]", "[\\%c]", "x[!\\%c]y", "[a-\\%c]" };
        char p[20];
        if (i == '\n' || i == '\r') continue;
        if (!mc_sel()) continue;
        snprintf(p, sizeof p, f[a], i);
        if (lead_blank(p)) continue;
        mc_desc("pattern "); show(p);
        mc_outcome(one_pattern(p, paths, np, "/r"));
    }
}
/* path-shaped patterns: components out of a list joined by slashes */
static void fam_paths(void)
{
    static const char *const comp[] = { "a", "b", "*", "**", "?", "ab", "a*", "*b", "***", "[ab]", "**a" };
    int n = 11, L = mc_thorough ? 5 : 4, l, i, lead, tail, neg;
    for (l = 1; l <= L; l++) {
        long v, N = 1;
        for (i = 0; i < l; i++) N *= n;
        for (v = 0; v < N; v++) {
            if (!mc_sel()) continue;
            for (lead = 0; lead < 2; lead++) for (tail = 0; tail < 3; tail++) for (neg = 0; neg < 1; neg++) {
                char p[64] = "";
                long t = v;
                if (neg) strcat(p, "!");
                if (lead) strcat(p, "/");
                for (i = 0; i < l; i++, t /= n) { if (i) strcat(p, "/"); strcat(p, comp[t % n]); }
                strcat(p, tail == 0 ? "" : tail == 1 ? "/" : "  ");
                mc_desc("pattern "); show(p);
                mc_outcome(one_pattern(p, PATHS, NPATH, l & 1 ? "/r" : "r/s"));
            }
        }
    }
}
/* lists of patterns on one to three levels */
static const char *const POOL[] = { "a", "!a", "b", "!b", "*", "!*", "/a", "!/a", "a/", "!a/", "a/b", "!a/b", "**/b", "*b", "!*b", "a/**", "!a/*", "/*", "# a", "", "\\!a", "[", "b/a", "!/a/b/" };
#define NPOOL ((int) (sizeof POOL / sizeof *POOL))
static int ref_levels(const char *const *pats, const int *lvl, int n, const char *rel, int d)
{
    /* levels: 0 "/r", 1 "/r/a", 2 "/r/a/b"; rel is relative to /r; deeper levels decide first */
    static const char *const pre[] = { "", "a/", "a/b/" };
    int L, i;
    for (L = 2; L >= 0; L--) {
        size_t pl = strlen(pre[L]);
        if (strncmp(rel, pre[L], pl) || !rel[pl]) continue;
        for (i = n - 1; i >= 0; i--)
            if (lvl[i] == L) {
                int r = gr_line(pats[i], rel + pl, d);
                if (r) return r == 1;
            }
    }
    return 0;
}
static void fam_lists(void)
{
    static const char *const base[] = { "/r", "/r/a", "/r/a/b" };
    int n, i, L = 3;
    static const char *const rels[] = { "a", "b", "ab", "bb", "!a", "a/a", "a/b", "a/bb", "b/a", "b/b", "a/a/a", "a/b/a", "a/b/b", "a/b/ab", "b/a/b", "a/b/a/b", "a/b/b/a", "a/b/a/b/b" };
    for (n = 1; n <= L; n++) {
        long v, N = 1, w, W = 1;
        for (i = 0; i < n; i++) { N *= NPOOL; W *= 3; }
        for (v = 0; v < N; v++) {
            if (!mc_sel()) continue;
            for (w = 0; w < W; w++) {
                const char *pats[3];
                int lvl[3], d, k;
                long t = v, u = w;
                apr_pool_t *p;
                ft_ignore_context_t *c[3];
                char full[100];
                uint64_t h = 0;
                for (i = 0; i < n; i++) { pats[i] = POOL[t % NPOOL]; t /= NPOOL; lvl[i] = (int) (u % 3); u /= 3; }
                for (i = 1; i < n; i++) if (lvl[i] < lvl[i - 1]) break;
                if (i < n && !mc_thorough) continue;                /* the order across levels does not matter */
                if (n == 3 && !mc_thorough && lvl[0] == lvl[2] && lvl[0] && (v % 3)) continue;
                apr_pool_create(&p, root);
                for (i = 0; i < 3; i++) c[i] = ft_ignore_context_create(p, i ? c[i - 1] : NULL, base[i]);
                mc_desc("patterns");
                for (i = 0; i < n; i++) { mc_desc_add(" %d:", lvl[i]); show(pats[i]); ft_ignore_add_pattern_str(c[lvl[i]], pats[i]); }
                for (k = 0; k < (int) (sizeof rels / sizeof *rels); k++) for (d = 0; d < 2; d++) {
                    int want, got, L2 = !strncmp(rels[k], "a/b/", 4) ? 2 : !strncmp(rels[k], "a/", 2) ? 1 : 0;
                    snprintf(full, sizeof full, "/r/%s", rels[k]);
                    want = ref_levels(pats, lvl, n, rels[k], d);
                    got = is_ign(c[L2], full, d);
                    if (want != got) mc_fail(NULL, "%s %s is %s, the gitignore rules say otherwise", d ? "directory" : "file", rels[k], got ? "ignored" : "not ignored");
                    h = h * 3 + (uint64_t) want;
                }
                drop(p);
                mc_trans(36);
                mc_eval(1);
                mc_trace(1);
                mc_outcome(h);
            }
        }
    }
}
/* files: line ends, blanks, comments, long lines */
static void load_case(const char *text, size_t tn, const char *const *lines, int nl, const char *const *paths, int np)
{
    char fn[600];
    int fd, i, k, d;
    apr_pool_t *p;
    ft_ignore_context_t *c;
    snprintf(fn, sizeof fn, "%s/ign", mc_dir);
    fd = open(fn, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || write(fd, text, tn) != (ssize_t) tn) mc_error("cannot write %s", fn);
    close(fd);
    apr_pool_create(&p, root);
    c = ft_ignore_context_create(p, NULL, "/r");
    if (ft_ignore_load_file(c, fn)) mc_fail(NULL, "the ignore file cannot be loaded");
    for (k = 0; k < np; k++) for (d = 0; d < 2; d++) {
        int want = 0, got;
        char full[9000];
        for (i = nl - 1; i >= 0; i--) { int r = gr_line(lines[i], paths[k], d); if (r) { want = r == 1; break; } }
        snprintf(full, sizeof full, "/r/%s", paths[k]);
        got = is_ign(c, full, d);
        if (want != got) mc_fail(NULL, "%s %.300s is %s, the gitignore rules say otherwise", d ? "directory" : "file", shown(paths[k]), got ? "ignored" : "not ignored");
    }
    drop(p);
    mc_trans((uint64_t) np * 2);
    mc_eval(1);
    mc_trace(1);
    mc_state(mc_hash(text, tn, 3));
}
static void fam_files(void)
{
    static const char *const lines[] = { "a", "!a", "# b", "", "b/", "a/b", "a b", "\\#", "*b", "[", "b ", "ab\\ ", "a/  ", " " };
    enum { NL = 14 };
    static const char *const eol[] = { "\n", "\r\n" };
    static const char *const paths[] = { "a", "b", "a b", "#", "ab", "a/b", "b/a", "b\r", "a\r", "# b", "[", "ab ", "b ", "b \r", " " };
    int n, i, k, e, fin;
    long v, N;
    for (n = 0; n <= 3; n++) {
        for (N = 1, i = 0; i < n; i++) N *= NL;
        for (v = 0; v < N; v++) {
            if (!mc_sel()) continue;
            for (e = 0; e < (1 << n); e++) for (fin = 0; fin < 2; fin++) {
                char t[200] = "";
                const char *ls[3];
                long u = v;
                for (i = 0; i < n; i++, u /= NL) { ls[i] = lines[u % NL]; strcat(t, ls[i]); if (i < n - 1 || fin) strcat(t, eol[e >> i & 1]); }
                mc_desc("file "); show(t);
                load_case(t, strlen(t), ls, n, paths, 15);
            }
        }
    }
    /* long lines: patterns and comments around every power of two, followed by another line */
    for (k = 0; k < 7; k++) for (n = 1; n <= (k < 2 ? 600 : k == 6 ? 36 : 40); n++) {
        static char t[2200000], big[2200000];
        static char lp[300];
        const char *ls[2], *ps[4];
        size_t l, f;
        if (!mc_sel()) continue;
        for (f = k == 6 ? 2u : 0u; f < (k < 2 ? 1u : 5u); f++) {
            l = k < 2 ? (size_t) n : k == 2 ? (size_t) (1000 + n) : k == 3 ? (size_t) (4076 + n) : k == 4 ? (size_t) (8172 + n) : k == 5 ? (size_t) n * 450 : ((size_t) 512 << (n - 1) / 3) - 1 + (size_t) ((n - 1) % 3);
            switch (k < 2 ? (size_t) k : f) {
            case 0: memset(big, 'a', l); break;
            case 1: memset(big, '?', l); break;
            case 2: memset(big, '*', l); big[l - 1] = 'b'; break;
            case 3: memset(big, 'x', l); big[0] = '#'; big[l - 1] = 'a'; big[l / 2] = ' '; break;
            default: memset(big, '.', l); big[0] = '['; if (l > 1) big[l - 1] = ']'; break;
            }
            big[l] = 0;
            snprintf(t, sizeof t, "%s\nb\n", big);
            ls[0] = big; ls[1] = "b";
            memset(lp, 'a', 299); lp[l < 255 ? l : 255] = 0;
            ps[0] = lp; ps[1] = "b"; ps[2] = "a"; ps[3] = ".";
            mc_desc("a line of %zu characters, kind %d/%zu", l, k, f);
            load_case(t, strlen(t), ls, 2, ps, 4);
        }
    }
}
/* very many patterns in one file, and very many directories above each other that have one */
static void fam_many(void)
{
    static const int counts[] = { 100, 255, 256, 257, 400, 1000, 1025, 4097, 20000, 66000 };
    static const int depths[] = { 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 };
    int i, j, k, d;
    for (k = 0; k < 10; k++) for (j = 0; j < 6; j++) {
        apr_pool_t *p;
        ft_ignore_context_t *c;
        int n = counts[k], back;
        char b[40];
        if (n > 5000 && !mc_thorough && j > 1) continue;
        if (!mc_sel()) continue;
        mc_desc("%d patterns, kind %d", n, j);
        apr_pool_create(&p, root);
        c = ft_ignore_context_create(p, NULL, "/r");
        back = j % 3 == 0 ? n / 2 : j % 3 == 1 ? n - 1 : 0;      /* the name that a later line brings back */
        for (i = 0; i < n; i++) { snprintf(b, sizeof b, j < 3 ? "f%d" : "/f%d", i); if (ft_ignore_add_pattern_str(c, b)) mc_fail(NULL, "pattern %d is refused", i); }
        snprintf(b, sizeof b, "!f%d", back);
        ft_ignore_add_pattern_str(c, b);
        ft_ignore_add_pattern_str(c, "last");
        for (i = 0; i < n + 2; i += i < 300 || i > n - 300 ? 1 : n > 5000 ? 997 : 7) {
            int got;
            snprintf(b, sizeof b, "/r/f%d", i);
            got = is_ign(c, b, 0);
            if (got != (i < n && i != back)) mc_fail(NULL, "%s is %s after %d patterns", b, got ? "ignored" : "not ignored", n);
        }
        if (!is_ign(c, "/r/last", 0) || is_ign(c, "/r/lost", 1)) mc_fail(NULL, "the last of %d patterns is not observed", n);
        drop(p);
        mc_trans((uint64_t) n); mc_eval(1); mc_trace(1); mc_outcome((uint64_t) (k * 8 + j));
    }
    /* on level a a line ignores the name, on level b one brings it back (or the other way round) */
    for (k = 0; k < (int) (sizeof depths / sizeof *depths); k++) {
        int D = depths[k], a, b;
        for (a = 0; a <= D; a += 1 + (D > 20) * (D / 12)) {
            if (!mc_sel()) continue;
            for (b = -1; b <= D; b += 1 + (D > 20) * (D / 12)) for (j = 0; j < 4; j++) {
                apr_pool_t *p;
                ft_ignore_context_t *c = NULL;
                static char path[4000];
                int want;
                if (b == a) continue;
                mc_desc("%d levels, lines on %d and %d, kind %d", D, a, b, j);
                apr_pool_create(&p, root);
                strcpy(path, "/r");
                for (d = 0; d <= D; d++) {
                    c = ft_ignore_context_create(p, c, path);
                    if (d == a) ft_ignore_add_pattern_str(c, j & 1 ? "!x" : "x");
                    if (d == b) ft_ignore_add_pattern_str(c, j & 1 ? "x" : "!x");
                    if (j & 2) ft_ignore_add_pattern_str(c, "y");
                    sprintf(path + strlen(path), "/d%d", d);
                }
                *strrchr(path, '/') = 0;
                strcat(path, "/x");
                want = (b > a) == (j & 1);
                if (is_ign(c, path, 0) != want) mc_fail(NULL, "a file %d levels down is %s", D, want ? "not ignored" : "ignored");
                drop(p);
                mc_trans((uint64_t) D); mc_eval(1); mc_trace(1);
            }
        }
        mc_outcome((uint64_t) (1000 + k));
    }
}
/* bases: paths that are not below the directory of the ignore file are left alone */
static void fam_bases(void)
{
    static const char *const bases[] = { "/r", "/r/", "r", "r/", "./r", "/", "/r/s", "." };
    static const char *const full[] = { "/r/a", "/ra", "/rx/a", "r/a", "rx/a", "ra", "./r/a", "/r/s/a", "/r/sa", "/q/a", "/r/s/t/a", "./a" };
    static const char *const rel[8][12] = {     /* the path relative to the base, NULL when outside */
        { "a", NULL, NULL, NULL, NULL, NULL, NULL, "s/a", "sa", NULL, "s/t/a", NULL },
        { "a", NULL, NULL, NULL, NULL, NULL, NULL, "s/a", "sa", NULL, "s/t/a", NULL },
        { NULL, NULL, NULL, "a", NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL },
        { NULL, NULL, NULL, "a", NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL },
        { NULL, NULL, NULL, NULL, NULL, NULL, "a", NULL, NULL, NULL, NULL, NULL },
        { "r/a", "ra", "rx/a", "-", "-", "-", "-", "r/s/a", "r/sa", "q/a", "r/s/t/a", "-" },
        { NULL, NULL, NULL, NULL, NULL, NULL, NULL, "a", NULL, NULL, "t/a", NULL },
        { NULL, NULL, NULL, NULL, NULL, NULL, "-", NULL, NULL, NULL, NULL, "a" },
    };
    static const char *const pats[] = { "*", "a", "/a", "/*", "*/a", "**", "**/a", "s/", "xa", "?a", "*a" };
    int b, f, p, d;
    for (b = 0; b < 8; b++) for (p = 0; p < 11; p++) {
        apr_pool_t *pl;
        ft_ignore_context_t *c;
        if (!mc_sel()) continue;
        mc_desc("base %s pattern %s", bases[b], pats[p]);
        apr_pool_create(&pl, root);
        c = ft_ignore_context_create(pl, NULL, bases[b]);
        ft_ignore_add_pattern_str(c, pats[p]);
        for (f = 0; f < 12; f++) for (d = 0; d < 2; d++) {
            int want, got = is_ign(c, full[f], d);
            if (rel[b][f] && !strcmp(rel[b][f], "-")) continue;        /* left open */
            want = rel[b][f] && gr_line(pats[p], rel[b][f], d) == 1;
            if (want != got) mc_fail(NULL, "ignore file in %s: %s %s is %s, the gitignore rules say otherwise", bases[b], d ? "directory" : "file", full[f], got ? "ignored" : "not ignored");
        }
        drop(pl);
        mc_trans(24);
        mc_eval(1);
        mc_trace(1);
        mc_outcome(mc_index());
    }
}
static void worker(void)
{
    apr_initialize();
    apr_pool_create(&root, NULL);
    pcre_malloc = take; pcre_free = give;
    fam_bases();
    fam_many();
    fam_files();
    fam_lists();
    fam_paths();
    fam_classes();
    fam_patterns();
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    return mc_run(worker);
}
