/* S03: every string over a small alphabet up to a length (plus all boundary numbers with all suffixes) against an exact
 * integer reference parser; every size below a limit and around every power of two for the printer. */
#include "mc.h"
#include <apr_general.h>
#include <apr_pools.h>
#include <ctype.h>
#include "human_size.h"
typedef unsigned __int128 u128;

/* grammar: digits [ '.' digits ] | '.' digits ; optional blanks ; optional one of BKMGT in either case ; end.
 * returns 1 and *out for a number, 0 for rejected, 2 if the property says nothing (blank or '+' in front, blanks at the end) */
static int ref(const char *s, long long *out)
{
    u128 num = 0, den = 1, unit = 1, v;
    int nd = 0, big = 0;
    const char *p = s;
    if (isspace((unsigned char) *p) || *p == '+') return 2;
    for (; isdigit((unsigned char) *p); p++, nd++) { if (num > ((u128) 1 << 90)) big = 1; else num = num * 10 + (u128) (*p - '0'); }
    if (*p == '.') {
        p++;
        for (; isdigit((unsigned char) *p); p++, nd++) { if (den > ((u128) 1 << 40)) return 2; num = num * 10 + (u128) (*p - '0'); den *= 10; }
    }
    if (!nd) return 0;
    while (*p == ' ') p++;
    if (*p) {
        switch (*p) {
        case 'b': case 'B': break;
        case 'k': case 'K': unit = (u128) 1 << 10; break;
        case 'm': case 'M': unit = (u128) 1 << 20; break;
        case 'g': case 'G': unit = (u128) 1 << 30; break;
        case 't': case 'T': unit = (u128) 1 << 40; break;
        default: return 0;
        }
        p++;
        if (*p == ' ') { while (*p == ' ') p++; return *p ? 0 : 2; }
        if (*p) return 0;
    }
    if (big || num > ((u128) 1 << 86)) return 0;
    v = num * unit / den;
    if (v > (u128) 0x7fffffffffffffffLL) return 0;
    *out = (long long) v;
    return 1;
}
static void one(const char *s)
{
    long long want = -1, got;
    int r = ref(s, &want);
    mc_desc("parse_human_size(\"%s\")", s);
    got = (long long) parse_human_size(s);
    mc_eval(1); mc_trans(1);
    if (r == 2) return;
    mc_trace(1);
    if (r == 0) {
        MC_CHECK(got < 0, "\"%s\" is not a size but is accepted as %lld", s, got);
    }
    else {
        MC_CHECK(got == want, "\"%s\" means %lld but gives %lld", s, want, got);
        mc_outcome(mc_hash(&want, sizeof want, 1));
        mc_state(mc_hash(&want, sizeof want, 1));
    }
}
static void strings(void)
{
    static const char al[] = "019.KmTB e-xgf";
    int n = (int) strlen(al), len, i, max = mc_thorough ? 6 : 5;
    char s[16];
    for (len = 0; len <= max; len++) {
        uint64_t tot = 1, k, x;
        for (i = 0; i < len; i++) tot *= (uint64_t) n;
        for (k = 0; k < tot; k++) {
            if (!mc_sel()) continue;
            for (x = k, i = 0; i < len; i++, x /= (uint64_t) n) s[i] = al[x % (uint64_t) n];
            s[len] = 0;
            one(s);
        }
    }
}
static void numbers(void)
{
    static const char *const suf[] = { "", "B", "b", "K", "k", "M", "m", "G", "g", "T", "t", " K", "  G", "Ki", "KB", "P", "Z", "!", "K1", ".", "..", ".5", ".5K", ".25T", ".75M", ".0", ".125g", ".0009765625K" };
    unsigned sfx;
    int p, d;
    char s[80];
    for (p = 0; p <= 66; p++)
        for (d = -3; d <= 3; d++)
            for (sfx = 0; sfx < sizeof suf / sizeof *suf; sfx++) {
                u128 v = (u128) 1 << p, t;
                char dig[50];
                int n = 0, i;
                if (!mc_sel()) continue;
                if (d < 0 && v < (u128) -d) v = 0; else v = d < 0 ? v - (u128) -d : v + (u128) d;
                for (t = v; t || !n; t /= 10) dig[n++] = (char) ('0' + (int) (t % 10));
                for (i = 0; i < n; i++) s[i] = dig[n - 1 - i];
                strcpy(s + n, suf[sfx]);
                /* fractions of numbers beyond the mantissa are not decided */
                if (strchr(suf[sfx], '.') && v > ((u128) 1 << 40)) { continue; }
                one(s);
            }
    for (d = 0; d < (mc_thorough ? 2000000 : 200000); d++) {
        if (!mc_sel()) continue;
        sprintf(s, "%d.%03dG", d / 1000, d % 1000);
        one(s);
        sprintf(s, "%d", d * 997);
        one(s);
    }
}
static apr_pool_t *P;
static void fmt(long long v)
{
    static const char *const unit[] = { "B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB" };
    const char *g;
    char *end;
    int k = 0;
    long double x, val;
    mc_desc("format_human_size(%lld)", v);
    g = format_human_size((apr_off_t) v, P);
    mc_eval(1); mc_trans(1); mc_trace(1);
    MC_CHECK(g != NULL, "no text for %lld", v);
    while (k < 6 && (v >> (10 * (k + 1))) > 0) k++;
    val = (long double) v / (long double) (1LL << (10 * k));
    if (k == 0) {
        char w[32];
        snprintf(w, sizeof w, "%lld B", v);
        MC_CHECK(!strcmp(w, g), "%lld is printed as \"%s\"", v, g);
    }
    else {
        const char *dot = strchr(g, '.');
        x = strtold(g, &end);
        if (v > (1LL << 53) && strcmp(end + 1, unit[k]) && k < 6 && val > 1023.9L) { val /= 1024; k++; }   /* a double cannot tell these from the next unit */
        MC_CHECK(isdigit((unsigned char) *g) && dot && isdigit((unsigned char) dot[1]) && dot + 2 == end && *end == ' ' && !strcmp(end + 1, unit[k]) && x - val <= 0.0500001L && val - x <= 0.0500001L,
                 "%lld is printed as \"%s\"", v, g);
    }
    mc_outcome(mc_hash(g, strlen(g), 5));
}
static void formats(void)
{
    long long v, k;
    int p, n = 0, d;
    apr_pool_create(&P, NULL);
    for (v = 0; v < (mc_thorough ? 20000000 : 2200000); v++) {
        if (!mc_sel()) continue;
        fmt(v);
        if (++n % 4096 == 0) apr_pool_clear(P);
    }
    for (p = 0; p < 63; p++)
        for (d = -600; d <= 600; d++) {
            v = (1LL << p) + d;
            if (v < 0) continue;
            if (!mc_sel()) continue;
            fmt(v);
        }
    apr_pool_clear(P);
    for (p = 10; p <= 60; p += 10)
        for (k = 10; k < 10240; k++)
            for (d = -1; d <= 1; d++) {
                if (p == 60 && k > 79) continue;
                if (!mc_sel()) continue;
                v = (long long) (((__int128) k << p) / 10) + d;
                fmt(v);
                if (++n % 4096 == 0) apr_pool_clear(P);
            }
    if (mc_sel()) { fmt(0x7fffffffffffffffLL); mc_sample("%s", mc_desc_get()); }
}
static void worker(void) { apr_initialize(); strings(); numbers(); formats(); }
int main(int argc, char **argv) { mc_init(argc, argv); return mc_run(worker); }
