/* fcc: a stand-in for compiler, linker, archiver, objcopy, moc and uic, chosen by the name it is called by.
 * Every call appends one record to $FCC_LOG: name, working directory, arguments (0x1f between, 0x1e at the end), and a
 * compilation one more record "H", source, every header read.
 * Objects and products are text whose content says exactly what went in.
 */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <limits.h>

typedef struct { char *s; size_t n, cap; } buf;
static void put(buf *b, const char *s, size_t n) {
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->s = realloc(b->s, b->cap); if (!b->s) exit(9); }
    memcpy(b->s + b->n, s, n); b->n += n; b->s[b->n] = 0;
}
static void puts_(buf *b, const char *s) { put(b, s, strlen(s)); }

static int slurp(const char *path, buf *b) {
    struct stat st;
    if (stat(path, &st) || !S_ISREG(st.st_mode)) return -1;
    FILE *f = fopen(path, "rb");
    if (!f) return -1;
    char t[65536]; size_t k;
    while ((k = fread(t, 1, sizeof t, f)) > 0) put(b, t, k);
    fclose(f);
    if (!b->s) puts_(b, "");
    return 0;
}
static void logrec(buf *b) {
    const char *p = getenv("FCC_LOG");
    put(b, "\x1e", 1);
    if (!p) return;
    int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd < 0 || write(fd, b->s, b->n) != (ssize_t)b->n) { perror("fcc log"); exit(9); }
    close(fd);
}
static const char *incs[512]; static int nincs;
static char *defs[4096]; static int ndefs;
static char *heads[4096]; static int nheads;
static int defined(const char *s, size_t n) {
    for (int i = 0; i < ndefs; i++) if (strlen(defs[i]) == n && !strncmp(defs[i], s, n)) return 1;
    return 0;
}
static void define(const char *s, size_t n) { if (!defined(s, n) && ndefs < 4096) defs[ndefs++] = strndup(s, n); }
static int depth, listing;

static int preprocess(const char *path, buf *out) {
    buf in = {0};
    if (slurp(path, &in)) { fprintf(stderr, "fcc: %s: no such file\n", path); return 1; }
    if (++depth > 60) { fprintf(stderr, "fcc: %s: include nested too deeply\n", path); return 1; }
    int skip = 0, level = 0, rc = 0;      /* skip: level at which skipping began */
    for (char *l = in.s; *l && !rc;) {
        char *e = strchr(l, '\n'); size_t n = e ? (size_t)(e - l) : strlen(l);
        char *p = l; 
        if (*p == '#') {
            p++; while (*p == ' ') p++;
            char *w = p; while (p < l + n && *p != ' ' && *p != '"' && *p != '<') p++;
            size_t wn = p - w; while (p < l + n && *p == ' ') p++;
            size_t an = 0; while (p + an < l + n && p[an] != ' ') an++;
            #define IS(x) (wn == strlen(x) && !strncmp(w, x, wn))
            if (IS("ifdef") || IS("ifndef")) {
                level++;
                if (!skip && defined(p, an) != (wn == 5)) skip = level;
            } else if (IS("else")) { if (skip == level) skip = 0; else if (!skip) skip = level; }
            else if (IS("endif")) { if (skip == level) skip = 0; level--; }
            else if (skip) {}
            else if (IS("define")) { define(p, an); put(out, l, n); puts_(out, "\n"); }
            else if (IS("error")) { fprintf(stderr, "fcc: %s: %.*s\n", path, (int)n, l); rc = 1; }
            else if (IS("include")) {
                char q = *p == '<' ? '>' : '"'; char *c = p + 1, *z = memchr(c, q, l + n - c);
                if (!z) { rc = 1; break; }
                char full[PATH_MAX]; int found = 0; struct stat st;
                const char *slash = strrchr(path, '/');
                if (q == '"') {
                    snprintf(full, sizeof full, "%.*s%.*s", slash ? (int)(slash - path + 1) : 0, path, (int)(z - c), c);
                    found = !stat(full, &st) && S_ISREG(st.st_mode);
                }
                for (int i = 0; i < nincs && !found; i++) {
                    snprintf(full, sizeof full, "%s/%.*s", incs[i], (int)(z - c), c);
                    found = !stat(full, &st) && S_ISREG(st.st_mode);
                }
                if (!found && listing && q == '>') {}     /* as gcc -MM */
                else if (!found) { fprintf(stderr, "fcc: %s: fatal error: %.*s: No such file or directory\n", path, (int)(z - c), c); rc = 1; }
                else {
                    int known = 0;
                    for (int i = 0; i < nheads; i++) known |= !strcmp(heads[i], full);
                    if (!known && nheads < 4096) heads[nheads++] = strdup(full);
                    rc = preprocess(full, out);
                }
            } else { put(out, l, n); puts_(out, "\n"); }
        } else if (!skip) { put(out, l, n); puts_(out, "\n"); }
        if (!e) break;
        l = e + 1;
    }
    depth--; free(in.s);
    return rc;
}
static void mkpath(buf *b, const char *s) {
    for (; *s; s++) {
        if (*s == ' ' || *s == '\t' || *s == '#') put(b, "\\", 1);
        if (*s == '$') put(b, "$", 1);
        put(b, s, 1);
    }
}
static int emit(const char *path, buf *b) {
    /* like the GNU tools: replaced at the end, never half written */
    FILE *f = fopen(path, "wb");
    if (!f) { fprintf(stderr, "fcc: cannot write %s\n", path); return 1; }
    fwrite(b->s ? b->s : "", 1, b->n, f);
    return fclose(f) != 0;
}
int main(int argc, char **argv) {
    const char *me = strrchr(argv[0], '/'); me = me ? me + 1 : argv[0];
    buf rec = {0}; char cwd[PATH_MAX];
    puts_(&rec, me); puts_(&rec, "\x1f"); puts_(&rec, getcwd(cwd, sizeof cwd) ? cwd : "?");
    for (int i = 1; i < argc; i++) { puts_(&rec, "\x1f"); puts_(&rec, argv[i]); }
    logrec(&rec);
    buf out = {0};
    size_t ml = strlen(me);
    #define ENDS(x) (ml >= strlen(x) && !strcmp(me + ml - strlen(x), x))
    if (ENDS("moc") || ENDS("uic")) {
        if (argc < 2) return 1;
        buf in = {0};
        if (slurp(argv[argc - 1], &in)) { fprintf(stderr, "%s: cannot read %s\n", me, argv[argc - 1]); return 1; }
        puts_(&out, ENDS("moc") ? "MOC\n" : "UIC\n"); put(&out, in.s, in.n);
        fwrite(out.s, 1, out.n, stdout);
        return 0;
    }
    if (ENDS("objcopy")) {
        if (argc < 3) return 1;
        puts_(&out, "OBJCOPY");
        for (int i = 1; i < argc - 2; i++) { puts_(&out, " "); puts_(&out, argv[i]); }
        puts_(&out, "\n");
        if (slurp(argv[argc - 2], &out)) return 1;
        return emit(argv[argc - 1], &out);
    }
    if (ENDS("objdump")) {
        if (argc < 3) return 1;
        puts_(&out, "DUMP\n");
        if (slurp(argv[argc - 1], &out)) return 1;
        fwrite(out.s, 1, out.n, stdout);
        return 0;
    }
    if (ENDS("javac")) {      /* every X.java to X.class beside it */
        for (int i = 1; i < argc; i++) {
            size_t n = strlen(argv[i]);
            if (argv[i][0] == '-' || n < 5 || strcmp(argv[i] + n - 5, ".java")) continue;
            buf b = {0}, o = {0};
            puts_(&b, "CLASS\n");
            if (slurp(argv[i], &b)) { fprintf(stderr, "javac: %s: not found\n", argv[i]); return 1; }
            put(&o, argv[i], n - 4); puts_(&o, "class");
            if (emit(o.s, &b)) return 1;
        }
        return 0;
    }
    if (ENDS("dx")) {         /* --dex --output T FILES */
        const char *t = NULL;
        puts_(&out, "DEX\n");
        for (int i = 1; i < argc; i++) {
            if (!strcmp(argv[i], "--output") && i + 1 < argc) t = argv[++i];
            else if (argv[i][0] != '-' && slurp(argv[i], &out)) return 1;
        }
        return t ? emit(t, &out) : 1;
    }
    if (ENDS("ar")) {
        if (argc < 3) return 1;
        puts_(&out, "AR "); puts_(&out, argv[1]); puts_(&out, "\n");
        for (int i = 3; i < argc; i++) {
            puts_(&out, "<"); 
            if (slurp(argv[i], &out)) { fprintf(stderr, "ar: %s: No such file\n", argv[i]); return 1; }
            puts_(&out, ">\n");
        }
        return emit(argv[2], &out);
    }
    const char *o = NULL, *src = NULL; int c = 0, mm = 0;
    const char *files[8192]; int nf = 0;
    for (int i = 1; i < argc; i++) {
        char *a = argv[i];
        if (!strcmp(a, "-c")) c = 1;
        else if (!strcmp(a, "-MM")) mm = 1;
        else if (!strcmp(a, "-o") && i + 1 < argc) o = argv[++i];
        else if (!strncmp(a, "-I", 2)) { if (nincs < 512) incs[nincs++] = a + 2; }
        else if (!strncmp(a, "-D", 2)) { char *q = strchr(a, '='); define(a + 2, q ? (size_t)(q - a - 2) : strlen(a + 2)); }
        else if (a[0] == '-') {}
        else if (nf < 8192) files[nf++] = a;
    }
    if (mm || c) {
        if (nf != 1) { fprintf(stderr, "fcc: %d input files\n", nf); return 1; }
        src = files[0]; listing = mm;
        if (c) {
            puts_(&out, "OBJ "); puts_(&out, me); puts_(&out, " "); puts_(&out, src);
            for (int i = 1; i < argc; i++)
                if (!strncmp(argv[i], "-D", 2) || (argv[i][0] == '-' && strchr("sOgfmW", argv[i][1]))) { puts_(&out, " "); puts_(&out, argv[i]); }
            puts_(&out, "\n");
        }
        int rc = preprocess(src, &out);
        if (c) {
            buf h = {0};
            puts_(&h, "H\x1f"); puts_(&h, cwd); puts_(&h, "\x1f"); puts_(&h, src); puts_(&h, rc ? "\x1f" "failed" : "\x1fok");
            for (int i = 0; i < nheads; i++) { puts_(&h, "\x1f"); puts_(&h, heads[i]); }
            logrec(&h);
        }
        if (rc) return 1;
        if (c) return emit(o ? o : "a.o", &out);
        buf d = {0};
        const char *b = strrchr(src, '/'); b = b ? b + 1 : src;
        const char *dot = strrchr(b, '.');
        buf name = {0}; put(&name, b, dot ? (size_t)(dot - b) : strlen(b));
        mkpath(&d, name.s ? name.s : ""); puts_(&d, ".o: "); mkpath(&d, src);
        size_t col = d.n;
        for (int i = 0; i < nheads; i++) {
            size_t before = d.n;
            if (col + strlen(heads[i]) > 70) { puts_(&d, " \\\n "); col = 1; } else { puts_(&d, " "); col++; }
            mkpath(&d, heads[i]); col += d.n - before;
        }
        puts_(&d, "\n");
        if (o) return emit(o, &d);
        fwrite(d.s, 1, d.n, stdout);
        return 0;
    }
    puts_(&out, "LINK "); puts_(&out, me);
    for (int i = 1; i < argc; i++)
        if (argv[i][0] == '-') { puts_(&out, " "); if (!strcmp(argv[i], "-o")) { i++; puts_(&out, "-o"); } else puts_(&out, argv[i]); }
    puts_(&out, "\n");
    for (int i = 0; i < nf; i++) {
        puts_(&out, "<");
        if (slurp(files[i], &out)) { fprintf(stderr, "fcc: %s: No such file or directory\n", files[i]); return 1; }
        puts_(&out, ">\n");
    }
    return emit(o ? o : "a.out", &out);
}
