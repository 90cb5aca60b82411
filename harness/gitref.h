/* gitref.h - reference for gitignore(5): one pattern against one path relative to the directory of the ignore file.
 * Written from the documentation of gitignore and of git's pathname globbing; compared with `git check-ignore` by
 * tools/gitref_vs_git.py. */
#ifndef GITREF_H
#define GITREF_H
#include <ctype.h>
#include <string.h>
#include <stdlib.h>

/* does the class starting at p (just after '[') accept c?  returns 1/0, or -1 when the class is malformed; *end: after ']' */
static int gr_class(const unsigned char *p, unsigned char c, const unsigned char **end)
{
    int neg = 0, hit = 0, first = 1;
    unsigned prev = 0;
    if (*p == '!' || *p == '^') { neg = 1; p++; }
    for (;; first = 0) {
        unsigned char x = *p;
        if (!x) return -1;
        if (x == ']' && !first) break;
        if (x == '-' && prev && p[1] && p[1] != ']') {
            unsigned char hi = p[1];
            p += 2;
            if (hi == '\\') { hi = *p++; if (!hi) return -1; }
            if (prev <= c && c <= hi) hit = 1;
            prev = 0;
            continue;
        }
        if (x == '[' && p[1] == ':') {
            const unsigned char *s = p + 2, *q = s;
            while (*q && *q != ']') q++;
            if (!*q) return -1;
            if (q > s && q[-1] == ':') {
                static const struct { const char *n; int (*f)(int); } k[] = { { "alnum", isalnum }, { "alpha", isalpha }, { "blank", isblank }, { "cntrl", iscntrl }, { "digit", isdigit },
                    { "graph", isgraph }, { "lower", islower }, { "print", isprint }, { "punct", ispunct }, { "space", isspace }, { "upper", isupper }, { "xdigit", isxdigit } };
                size_t n = (size_t) (q - 1 - s), i;
                for (i = 0; i < 12; i++) if (strlen(k[i].n) == n && !memcmp(k[i].n, s, n)) break;
                if (i == 12) return -1;
                if (c < 128 && k[i].f(c)) hit = 1;
                p = q + 1;
                prev = 0;
                continue;
            }
        }
        if (x == '\\') { x = *++p; if (!x) return -1; }
        if (x == c) hit = 1;
        prev = x;
        p++;
    }
    *end = p + 1;
    return hit != neg && c != '/';
}
static int gr_wild(const unsigned char *pat, const unsigned char *p, const unsigned char *t)
{
    for (; *p; p++, t++) {
        if (*p == '*') {
            const unsigned char *s = p;
            int deep;
            while (*p == '*') p++;
            deep = p - s >= 2 && (s == pat || s[-1] == '/') && (!*p || *p == '/' || (p[0] == '\\' && p[1] == '/'));
            if (deep && *p == '/' && gr_wild(pat, p + 1, t)) return 1;
            for (;; t++) {
                if (gr_wild(pat, p, t)) return 1;
                if (!*t || (*t == '/' && !deep)) return 0;
            }
        }
        if (!*t) return 0;
        if (*p == '?') { if (*t == '/') return 0; continue; }
        if (*p == '[') {
            const unsigned char *e;
            if (gr_class(p + 1, *t, &e) != 1) return 0;
            p = e - 1;
            continue;
        }
        if (*p == '\\') { p++; if (!*p) return 0; }
        if (*p != *t) return 0;
    }
    return !*t;
}
/* 0 no match (or no pattern), 1 ignore, 2 re-include */
static int gr_line(const char *line, const char *rel, int isdir)
{
    static __thread char b[2200000];
    unsigned char *p = (unsigned char *) b;
    size_t n, i;
    int neg = 0, dironly = 0, last = -1;
    const char *t = rel;
    n = strlen(line);
    if (n >= sizeof b) abort();
    memcpy(b, line, n + 1);
    if (b[0] == '#') return 0;
    for (i = 0; b[i]; i++) {                        /* trailing blanks do not count unless quoted */
        if (b[i] == ' ') { if (last < 0) last = (int) i; }
        else { last = -1; if (b[i] == '\\') { i++; if (!b[i]) break; } }
    }
    if (last >= 0) b[last] = 0;
    if (*p == '!') { neg = 1; p++; }
    n = strlen((char *) p);
    if (n && p[n - 1] == '/') { p[--n] = 0; dironly = 1; }
    if (!n) return 0;
    if (dironly && !isdir) return 0;
    if (!strchr((char *) p, '/')) { t = strrchr(rel, '/'); t = t ? t + 1 : rel; }
    else if (*p == '/') p++;
    if (!gr_wild(p, p, (const unsigned char *) t)) return 0;
    return neg ? 2 : 1;
}
#endif
