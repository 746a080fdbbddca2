/* Native side of the harness interface: replays input bytes chosen by the solver. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

static uint8_t *in; static size_t in_len, in_pos;
static uint64_t obs; static int verbose;

uint32_t symex_byte(void) { return in_pos < in_len ? in[in_pos++] : 0; }
void symex_assume(uint32_t c) { if (!c) { if (verbose) printf("REJECTED\n"); fflush(stdout); _exit(66); } }
void symex_reject(void) { symex_assume(0); }
void symex_assert(uint32_t c, const uint8_t *p, size_t n) {
    if (!c) { if (verbose) { printf("ASSERT %.*s\n", (int)n, (const char *)p); fflush(stdout); } _exit(65); }
}
void symex_observe(const uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) obs = (obs ^ p[i]) * 0x100000001b3ull;
    if (verbose) { printf("OBS "); fwrite(p, 1, n, stdout); printf("\n"); }
}
void symex_cover(const uint8_t *p, size_t n) { (void)p; (void)n; }
void symex_concretize(uint8_t *p, size_t n) { (void)p; (void)n; }
void symex_print(const uint8_t *p, size_t n) { if (verbose) printf("[print] %.*s\n", (int)n, (const char *)p); }

struct entry { const uint8_t *name; size_t len; void (*f)(void); };

static uint8_t *unhex(const char *s, size_t *n) {
    if (*s == 'x') s++;
    size_t l = strlen(s) / 2; uint8_t *b = malloc(l + 1);
    for (size_t i = 0; i < l; i++) { unsigned x = 0; sscanf(s + 2 * i, "%2x", &x); b[i] = x; }
    *n = l; return b;
}
static const struct entry *find(const struct entry *t, size_t n, const char *e) {
    for (size_t i = 0; i < n; i++) if (t[i].len == strlen(e) && !memcmp(t[i].name, e, t[i].len)) return &t[i];
    fprintf(stderr, "no harness %s\n", e); exit(64);
}
/* harness ENTRY HEX            one run, verbose; exit 0 / 65 assertion / 66 rejected / signal
   harness --batch              lines "ENTRY HEX" on stdin -> lines "STATUS OBSHASH" */
int symex_main(int argc, char **argv, const struct entry *t, size_t n) {
    if (argc >= 2 && !strcmp(argv[1], "--list")) { for (size_t i = 0; i < n; i++) printf("%.*s\n", (int)t[i].len, t[i].name); return 0; }
    if (argc >= 2 && !strcmp(argv[1], "--batch")) {
        size_t cap = 1 << 20; char *line = malloc(cap);
        while (fgets(line, cap, stdin)) {
            char *sp = strchr(line, ' '); if (!sp) continue; *sp = 0; char *h = sp + 1; h[strcspn(h, "\n")] = 0;
            const struct entry *e = find(t, n, line);
            int p[2]; if (pipe(p)) return 70;
            pid_t c = fork();
            if (!c) {
                close(p[0]); if (!freopen("/dev/null", "w", stderr)) _exit(70);
                in = unhex(h, &in_len); in_pos = 0; obs = 0xcbf29ce484222325ull;
                alarm(20);
                e->f();
                if (write(p[1], &obs, 8) != 8) _exit(70);
                _exit(0);
            }
            close(p[1]); uint64_t o = 0; ssize_t k = read(p[0], &o, 8); (void)k; close(p[0]);
            int st = 0; waitpid(c, &st, 0);
            printf("%d %016llx\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st), (unsigned long long)o);
        }
        return 0;
    }
    if (argc < 3) { fprintf(stderr, "usage: harness ENTRY HEX\n"); return 64; }
    verbose = 1; in = unhex(argv[2], &in_len); obs = 0xcbf29ce484222325ull;
    find(t, n, argv[1])->f();
    printf("HASH %016llx\n", (unsigned long long)obs);
    return 0;
}
