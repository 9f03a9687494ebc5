/* C14's explorer: every sequence of item libraries, loaded one by one in one process each (so that every prefix is
 * a program with these items defined in this order), and the headers generated in every state. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
typedef long (*write_fn)(void *, const unsigned char *, size_t);
typedef struct { uint32_t lang, stable; const char *banner, *guard, *text; uint32_t naming; } cfg_t;
/* 0: Ok; 1: Err; 2: panic */
typedef int (*gen_fn)(const cfg_t *, write_fn, void *, char *why, size_t why_len);
static gen_fn gen;
typedef struct { unsigned char *p; size_t len, cap; long writes; int mode; long k; long limit; int fired; } sink_t;
enum { HEALTHY, ERR_AT, ERR_ONCE, ZERO_AT, INTERRUPT, SHORT, FULL_DISK, INTERRUPT_ALL };
static long sink(void *ctx, const unsigned char *p, size_t n) {
    sink_t *s = ctx;
    long i = s->writes++;
    if (s->mode == ERR_AT && i >= s->k) return -1;
    if (s->mode == ERR_ONCE && i == s->k) return -1;
    if (s->mode == ZERO_AT && i >= s->k) return 0;
    if (s->mode == INTERRUPT && i == s->k) return -2;
    if (s->mode == INTERRUPT_ALL && i % 2 == 0) return -2;
    if (s->mode == SHORT && n > 1) n = 1;
    if (s->mode == FULL_DISK && s->len + n > (size_t)s->limit) {
        n = s->limit - s->len;
        if (!n) return -1;
    }
    if (s->len + n > s->cap) s->p = realloc(s->p, s->cap = 2 * (s->len + n) + 4096);
    memcpy(s->p + s->len, p, n);
    s->len += n;
    return n;
}
static int run(const cfg_t *c, sink_t *s, int mode, long k) {
    static char why[500];
    s->len = s->writes = 0;
    s->mode = mode; s->k = s->limit = k;
    return gen(c, sink, s, why, sizeof why);
}
static uint64_t fnv(const unsigned char *p, size_t n) {
    uint64_t h = 0xcbf29ce484222325u;
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3u;
    return h;
}
static int nlang, nitems, depth;
static char **items;
static int seq[16], used[64];
static sink_t a, b;
static void emit(int len, int sorted) {
    char name[128] = "";
    for (int i = 0; i < len; i++) sprintf(name + strlen(name), "%s%d", i ? "," : "", seq[i]);
    for (int lang = 0; lang < nlang; lang++)
        for (int st = 0; st < 2; st++) {
            cfg_t c = { lang, st, 0, 0, 0, 0 };
            int r = run(&c, &a, HEALTHY, 0), r2 = run(&c, &b, HEALTHY, 0);
            if (r != r2 || a.len != b.len || memcmp(a.p, b.p, a.len)) {
                printf("D %s %d %d\n", name, lang, st);
                continue;
            }
            if (st && !sorted) printf("H %s %d %d %016lx\n", name, lang, r, (unsigned long)fnv(a.p, a.len));
            else {
                printf("T %s %d %d %d %zu %016lx\n", name, lang, st, r, a.len, (unsigned long)fnv(a.p, a.len));
                fwrite(a.p, 1, a.len, stdout);
                putchar('\n');
            }
        }
}
static void load(int i) {
    if (!dlopen(items[i], RTLD_NOW | RTLD_LOCAL)) { printf("X %s\n", dlerror()); fflush(stdout); _exit(3); }
}
static void node(int len, int sorted) {
    emit(len, sorted);
    fflush(stdout);
    if (len == depth) return;
    for (int i = 0; i < nitems; i++) {
        if (used[i]) continue;
        pid_t p = fork();
        if (!p) {
            load(i);
            used[i] = 1;
            seq[len] = i;
            node(len + 1, sorted && (!len || seq[len - 1] < i));
            fflush(stdout);
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if (st) { printf("X node ended with %d after %d items\n", st, len); fflush(stdout); }
    }
}
static void faults(void) {
    /* Every output fault, at every write (byte). */
    for (int lang = 0; lang < nlang; lang++)
        for (int st = 0; st < 2; st++) {
            cfg_t c = { lang, st, 0, 0, 0, 0 };
            if (run(&c, &a, HEALTHY, 0)) { printf("F bad %d %d healthy output failed\n", lang, st); continue; }
            long writes = a.writes, len = a.len, n = 0;
            size_t *at = calloc(writes + 1, sizeof *at);
#define NEED(cond, ...) do { if (!(cond)) { printf("F bad %d %d ", lang, st); printf(__VA_ARGS__); putchar('\n'); goto next; } } while (0)
            for (int mode = ERR_AT; mode <= INTERRUPT_ALL; mode++) {
                long hi = mode == FULL_DISK ? len : mode == SHORT || mode == INTERRUPT_ALL ? 1 : writes;
                for (long k = 0; k < hi; k++, n++) {
                    int r = run(&c, &b, mode, k);
                    int ok = mode == INTERRUPT || mode == SHORT || mode == INTERRUPT_ALL;
                    NEED(r == !ok, "mode %d at %ld: status %d", mode, k, r);
                    if (ok) NEED(b.len == a.len && !memcmp(a.p, b.p, a.len), "mode %d at %ld: other output", mode, k);
                    else NEED(b.len <= a.len && !memcmp(a.p, b.p, b.len), "mode %d at %ld: what was written is not the beginning of the output", mode, k);
                    if (mode == FULL_DISK) NEED((long)b.len == k, "disk full after %ld bytes: %zu were written", k, b.len);
                }
            }
            int r = run(&c, &b, FULL_DISK, len);
            NEED(r == 0 && b.len == a.len, "a disk with just the space was not enough");
            n++;
        next:
            printf("F ok %d %d %ld %ld %ld\n", lang, st, n, writes, len);
            free(at);
        }
}
int main(int argc, char **argv) {
    /* walk SFDY NLANG MODE … */
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!h || !(gen = (gen_fn)dlsym(h, "vp_gen"))) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    nlang = atoi(argv[2]);
    if (!strcmp(argv[3], "walk")) {
        /* DEPTH FIRST items… (FIRST: index, or -1 for the empty program alone) */
        depth = atoi(argv[4]);
        int first = atoi(argv[5]);
        items = argv + 6; nitems = argc - 6;
        if (first < 0) emit(0, 1);
        else {
            load(first);
            used[first] = 1;
            seq[0] = first;
            node(1, 1);
        }
    } else if (!strcmp(argv[3], "faults")) {
        items = argv + 4; nitems = argc - 4;
        for (int i = 0; i < nitems; i++) load(i);
        faults();
    } else if (!strcmp(argv[3], "file")) {
        /* file PATH LANG STABLE LIMIT items…: status of generation to a file, of at most LIMIT bytes if not negative */
        int (*file)(const cfg_t *, const char *, char *, size_t) = dlsym(h, "vp_file");
        char why[500] = "";
        items = argv + 8; nitems = argc - 8;
        for (int i = 0; i < nitems; i++) load(i);
        cfg_t c = { atoi(argv[5]), atoi(argv[6]), 0, 0, 0, 0 };
        if (atol(argv[7]) >= 0) {
            struct rlimit l = { atol(argv[7]), atol(argv[7]) };
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &l);
        }
        int r = file(&c, argv[4], why, sizeof why);
        printf("R %d %s\n", r, why);
    } else {
        /* config CFG… items: the output of one configuration per line of stdin: lang stable banner guard text naming ("-": none) */
        items = argv + 4; nitems = argc - 4;
        for (int i = 0; i < nitems; i++) load(i);
        static char line[4096];
        while (fgets(line, sizeof line, stdin)) {
            char *f[8];
            int n = 0;
            for (char *p = strtok(line, "\t\n"); p && n < 8; p = strtok(0, "\t\n")) f[n++] = p;
            if (n != 6) return 4;
#define OPT(s) (!strcmp(s, "-") ? 0 : !strcmp(s, "=") ? "" : s)
            cfg_t c = { atoi(f[0]), atoi(f[1]), OPT(f[2]), OPT(f[3]), OPT(f[4]), atoi(f[5]) };
            int r = run(&c, &a, HEALTHY, 0);
            printf("C %d %zu\n", r, a.len);
            fwrite(a.p, 1, a.len, stdout);
            putchar('\n');
        }
    }
    fflush(stdout);
    return 0;
}
