/* The exploration engine.  See mc.h. */
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <setjmp.h>

#define MAXV 4096
#define NW_MAX 16
#define MSG 4096
#define LOG 65536
enum { ST_RUN = 0, ST_FAIL, ST_DISCARD, ST_NONDET };

struct wshm {
    volatile int scenario;            /* current, -1 when none. */
    volatile int len;                 /* choices made so far in this run. */
    volatile int status;
    volatile long execs, choices, steps, nontriv, discards, past;
    int maxlen;
    unsigned short v[MAXV], n[MAXV];
    char key[256], msg[MSG], ctx[MSG];
};
/* the latest executions of each worker's process: state that the code under test carries from one to the next can matter. */
#define RING 64
struct rec { int scenario, len; unsigned short v[MAXV], n[MAXV]; };
static struct rec* R;
struct gshm {
    volatile int next, stop, done_scenarios;
    volatile long states, table_full;
};
static struct wshm* W;
static struct wshm* me;
static struct gshm* G;
static volatile uint64_t* table;
static uint64_t table_mask;

int mc_bound = 0, mc_bound2 = 0, mc_mode = 0, mc_verbose = 0;
static int replay_len;                /* choices to follow; then take 0. */
static char logbuf[LOG]; static size_t loglen;
static int nodfs = 0;
static uint64_t sample_seed;   /* nonzero: written-out samples take varied branches. */
extern char* mc_logshare;
void mc_trace_sync(void);

static double now(void)
{ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

int mc_choose(int n, const char* what)
{
    int i = me->len;
    if (n <= 0) { fprintf(stderr, "mc_choose(%d) %s\n", n, what); _exit(2); }
    if (i >= MAXV) mc_fail("runaway", "more than %d choices in one execution (%s)", MAXV, what);
    if (i < replay_len)
    {
        if (me->n[i] != n)
        {
            if (nodfs == 2) { me->n[i] = (unsigned short)n; if (me->v[i] >= n) me->v[i] = 0; }
            else {
            snprintf(me->msg, MSG, "choice %d (%s): had %d alternatives, now %d", i, what, me->n[i], n);
            me->status = ST_NONDET; _exit(4); }
        }
    }
    else
    {
        me->n[i] = (unsigned short)n; me->v[i] = 0;
        if (sample_seed)
            me->v[i] = (unsigned short)(mc_hash(mc_hash(sample_seed, (uint64_t)i), 77) % (uint64_t)n);
    }
    me->len = i + 1;
    if (i + 1 > me->maxlen) me->maxlen = i + 1;
    ++me->choices;
    if (mc_verbose && n > 1) mc_trace("    choose %s = %d of %d", what, me->v[i], n);
    return me->v[i];
}
void mc_state(uint64_t h)
{
    if (!h) h = 1;
    if (!table) return;
    uint64_t i = h & table_mask;
    for (int probes = 0; probes < 64; ++probes, i = (i + 1) & table_mask)
    {
        uint64_t c = table[i];
        if (c == h) return;
        if (c == 0)
        {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&table[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
            { __atomic_add_fetch(&G->states, 1, __ATOMIC_RELAXED); return; }
            if (z == h) return;
        }
    }
    __atomic_add_fetch(&G->table_full, 1, __ATOMIC_RELAXED);
}
/* has this state been reached before?  never during the replayed prefix, nor when a recorded execution is run again. */
bool mc_visited(uint64_t h)
{
    if (!table || mc_verbose || me->len < replay_len) return false;
    h = mc_hash(h, 0x5157); if (!h) h = 1;
    uint64_t i = h & table_mask;
    for (int probes = 0; probes < 64; ++probes, i = (i + 1) & table_mask)
    {
        uint64_t c = table[i];
        if (c == h) return true;
        if (c == 0)
        {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&table[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return false;
            if (z == h) return true;
        }
    }
    __atomic_add_fetch(&G->table_full, 1, __ATOMIC_RELAXED);
    return false;
}
void mc_exec(void) { ++me->execs; }
void mc_context(const char* c) { snprintf(me->ctx, MSG, "%s", c); }
void mc_step(void) { ++me->steps; }
void mc_nontrivial(void) { ++me->nontriv; }
void mc_trace(const char* fmt, ...)
{
    if (!mc_verbose) return;
    if (loglen > LOG - 600) return;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(logbuf + loglen, 512, fmt, ap);
    va_end(ap);
    if (k > 511) k = 511;
    loglen += (size_t)k; logbuf[loglen++] = '\n';
    if (mc_logshare) { mc_trace_sync(); return; }
    if (mc_verbose == 2) { fwrite(logbuf, 1, loglen, stdout); fflush(stdout); loglen = 0; }
}
void mc_fail(const char* key, const char* fmt, ...)
{
    snprintf(me->key, sizeof me->key, "%s", key);
    va_list ap; va_start(ap, fmt); vsnprintf(me->msg, MSG, fmt, ap); va_end(ap);
    me->status = ST_FAIL;
    mc_trace("FAIL [%s] %s", me->key, me->msg);
    _exit(3);
}
void mc_discard(void) { me->status = ST_DISCARD; _exit(5); }

/* advance to the next vector; 0 when exhausted. */
static int advance(void)
{
    int i = me->len;
    while (i > 0)
    {
        --i;
        if (me->v[i] + 1 < me->n[i]) { ++me->v[i]; me->len = i + 1; replay_len = i + 1; return 1; }
    }
    return 0;
}
static int nscen;
/* resume: continue after the execution in me->v. */
static void worker(int resume)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me->past = 0;
    if (resume)
    {
        ++me->execs;
        if (!advance()) { me->scenario = -1; __atomic_add_fetch(&G->done_scenarios, 1, __ATOMIC_RELAXED); }
    }
    for (;;)
    {
        if (me->scenario < 0)
        {
            if (G->stop) _exit(0);
            int s = __atomic_fetch_add(&G->next, 1, __ATOMIC_RELAXED);
            if (s >= nscen) _exit(0);
            me->len = 0; replay_len = 0; me->scenario = s;
        }
        for (;;)
        {
            if (G->stop) _exit(0);
            me->len = 0; me->status = ST_RUN;
            mc_run(me->scenario);
            struct rec* q = &R[(me - W) * RING + me->past % RING];
            q->scenario = me->scenario; q->len = me->len; memcpy(q->v, me->v, sizeof(short) * (size_t)me->len); memcpy(q->n, me->n, sizeof(short) * (size_t)me->len);
            ++me->past; ++me->execs;
            if (!advance()) break;
        }
        me->scenario = -1;
        __atomic_add_fetch(&G->done_scenarios, 1, __ATOMIC_RELAXED);
    }
}

/* executions to repeat, in the same process, before the next run_once's. */
static struct rec* before[RING]; static int nbefore;
/* run one vector in a child with the trace on; returns its wait status. */
static int run_once(int slot, int scenario, const unsigned short* v, const unsigned short* n, int len,
                    char* out, size_t outsz, int verbose, double limit)
{
    struct wshm* w = &W[slot];
    w->scenario = scenario; w->status = ST_RUN; w->key[0] = w->msg[0] = 0; w->len = 0;
    memcpy(w->v, v, sizeof(unsigned short) * (size_t)len);
    memcpy(w->n, n, sizeof(unsigned short) * (size_t)len);
    char* shared = mmap(NULL, LOG + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(NULL);
    pid_t p = fork();
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        me = w; replay_len = len; mc_verbose = verbose; table = NULL;
        if (verbose != 2)
        {
            /* the trace must survive a crash: write it to shared memory. */
            mc_logshare = shared;
        }
        if (nbefore)
        {
            int vb = mc_verbose, nd = nodfs; mc_verbose = 0; nodfs = 2;
            for (int i = 0; i < nbefore; ++i)
            {
                struct rec* q = before[i]; memcpy(w->v, q->v, sizeof(short) * (size_t)q->len); memcpy(w->n, q->n, sizeof(short) * (size_t)q->len);
                w->scenario = q->scenario; w->len = 0; replay_len = q->len; mc_run(q->scenario);
            }
            mc_verbose = vb; nodfs = nd; w->scenario = scenario; w->len = 0; replay_len = len;
            memcpy(w->v, v, sizeof(short) * (size_t)len); memcpy(w->n, n, sizeof(short) * (size_t)len); mc_trace("(after %d other executions in the same process)", nbefore);
        }
        mc_run(scenario);
        _exit(0);
    }
    double t0 = now(); int st = 0;
    for (;;)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); st = -1; break; }
        struct timespec ts = {0, 500000}; nanosleep(&ts, NULL);
    }
    if (out && outsz) { snprintf(out, outsz, "%s", shared); }
    munmap(shared, LOG + 64);
    return st;
}
char* mc_logshare;
/* in shared mode the buffer is the shared page itself. */
static void trace_shared(const char* s)
{
    size_t l = strlen(mc_logshare), k = strlen(s);
    if (l + k + 2 < LOG) { memcpy(mc_logshare + l, s, k); mc_logshare[l + k] = '\n'; mc_logshare[l + k + 1] = 0; }
}
/* redefine mc_trace's sink when sharing. */
static void sink(void) { if (mc_logshare && loglen) { logbuf[loglen - 1] = 0; trace_shared(logbuf); loglen = 0; } }
void mc_trace_sync(void) { sink(); }

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

struct known { char key[256]; long hits; int used; };
static struct known known[256]; static int nknown;
static void load_known(const char* arg)
{
    /* keys separated by newlines in a file */
    FILE* f = fopen(arg, "r"); if (!f) return;
    char line[512] = "";
    while (fgets(line, sizeof line, f) && nknown < 256)
    {
        line[strcspn(line, "\n")] = 0;
        if (line[0]) { line[255] = 0; memcpy(known[nknown++].key, line, 256); }
    }
    fclose(f);
}
static char errpath[640];
static void crash_key(char* key, size_t n, char* msg, size_t mn, int st)
{
    char buf[32768]; size_t k = 0;
    FILE* f = fopen(errpath, "r");
    if (f) { k = fread(buf, 1, sizeof buf - 1, f); fclose(f); }
    buf[k] = 0;
    char* s = strstr(buf, "SUMMARY: ");
    char* u = strstr(buf, "runtime error: ");
    if (u && (!s || u < s)) { u[strcspn(u, "\n")] = 0; snprintf(key, n, "crash"); snprintf(msg, mn, "%s", u); return; }
    if (s) { s[strcspn(s, "\n")] = 0; snprintf(key, n, "crash"); snprintf(msg, mn, "%s", s); return; }
    char* a = strstr(buf, "Assertion");
    if (a) { a[strcspn(a, "\n")] = 0; snprintf(key, n, "crash"); snprintf(msg, mn, "%s", a); return; }
    snprintf(key, n, "crash");
    if (WIFSIGNALED(st)) snprintf(msg, mn, "killed by signal %d", WTERMSIG(st));
    else snprintf(msg, mn, "exit status %d", WEXITSTATUS(st));
}

int main(int argc, char** argv)
{
    int nw = 8; double deadline = 1e9, hang = 30; const char* outp = NULL; const char* replay = NULL;
    const char* replaydir = "."; const char* prop = "X"; const char* tag = "h"; int table_bits = 22;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        const char* a = argv[i]; const char* b = argv[i + 1];
        if (!strcmp(a, "--bound")) mc_bound = atoi(b);
        else if (!strcmp(a, "--bound2")) mc_bound2 = atoi(b);
        else if (!strcmp(a, "--mode")) mc_mode = atoi(b);
        else if (!strcmp(a, "--workers")) nw = atoi(b);
        else if (!strcmp(a, "--deadline")) deadline = atof(b);
        else if (!strcmp(a, "--hang")) hang = atof(b);
        else if (!strcmp(a, "--known")) load_known(b);
        else if (!strcmp(a, "--out")) outp = b;
        else if (!strcmp(a, "--prop")) prop = b;
        else if (!strcmp(a, "--tag")) tag = b;
        else if (!strcmp(a, "--bits")) table_bits = atoi(b);
        else if (!strcmp(a, "--replaydir")) replaydir = b;
        else if (!strcmp(a, "--replay")) replay = b;
        else { fprintf(stderr, "unknown option %s\n", a); return 2; }
    }
    if (nw > NW_MAX) nw = NW_MAX;
    setvbuf(stdout, NULL, _IOLBF, 0);
    W = mmap(NULL, sizeof(struct wshm) * (NW_MAX + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    G = mmap(NULL, sizeof(struct gshm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = mmap(NULL, sizeof(struct rec) * RING * (NW_MAX + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    table_mask = (1ULL << table_bits) - 1;
    table = mmap(NULL, 8ULL << table_bits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    me = &W[NW_MAX];
    snprintf(errpath, sizeof errpath, "%s/%s-%s.stderr.%d", replaydir, prop, tag, (int)getpid());

    if (replay)
    {
        FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
        char line[65536]; unsigned short v[MAXV], n[MAXV]; int len = 0, scen = 0;
        while (fgets(line, sizeof line, f))
        {
            if (!strncmp(line, "bound ", 6)) sscanf(line, "bound %d %d %d", &mc_bound, &mc_bound2, &mc_mode);
            if (!strncmp(line, "scenario ", 9)) scen = atoi(line + 9);
            if (!strncmp(line, "before ", 7) && nbefore < RING)
            {
                struct rec* q = before[nbefore++] = calloc(1, sizeof(struct rec)); char* p = line + 7; int a, b, k = 0; sscanf(p, "%d%n", &q->scenario, &k); p += k;
                while (q->len < MAXV && sscanf(p, " %d/%d%n", &a, &b, &k) == 2) { q->v[q->len] = (unsigned short)a; q->n[q->len++] = (unsigned short)b; p += k; }
            }
            if (!strncmp(line, "choices", 7))
            {
                char* p = line + 7; int a, b, k;
                while (len < MAXV && sscanf(p, " %d/%d%n", &a, &b, &k) == 2) { v[len] = (unsigned short)a; n[len] = (unsigned short)b; ++len; p += k; }
            }
        }
        fclose(f);
        mc_setup(); nscen = mc_scenarios();
        nodfs = 2;
        int st = run_once(NW_MAX, scen, v, n, len, NULL, 0, 2, hang * 2);
        struct wshm* w = &W[NW_MAX];
        if (st == -1) { printf("REPLAY: hang\n"); return 1; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("REPLAY: passes\n"); return 0; }
        printf("REPLAY: fails [%s] %s (status %d)\n", w->key, w->msg, st);
        return 1;
    }

    mc_setup();
    nscen = mc_scenarios();
    pid_t pid[NW_MAX]; int devnull = open("/dev/null", O_RDWR); (void)devnull;
    double t0 = now(); long lastexec[NW_MAX]; double lastt[NW_MAX];
    char werr[NW_MAX][600];
    int live = 0;
    for (int i = 0; i < nw; ++i)
    {
        W[i].scenario = -1; lastexec[i] = -1; lastt[i] = now();
        snprintf(werr[i], sizeof werr[i], "%s/%s-%s.stderr.%d.%d", replaydir, prop, tag, (int)getpid(), i);
        fflush(NULL);
        pid[i] = fork();
        if (pid[i] == 0) { me = &W[i]; int fd = open(werr[i], O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); worker(0); }
        ++live;
    }
    int violation = 0, nondet = 0, unconfirmed = 0, odd = 0; static char oddmsg[MSG]; long knownhits = 0; char vkey[256] = "", vmsg[MSG] = ""; char rpath[700] = "";
    int timeout = 0;
    while (live > 0)
    {
        struct timespec ts = {0, 1000000}; nanosleep(&ts, NULL);
        double t = now();
        if (!G->stop && t - t0 > deadline) { G->stop = 1; timeout = 1; }
        for (int i = 0; i < nw; ++i)
        {
            if (!pid[i]) continue;
            int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
            int hung = 0;
            if (r == 0)
            {
                long beat = W[i].execs + W[i].steps;
                if (beat != lastexec[i]) { lastexec[i] = beat; lastt[i] = t; continue; }
                else if (t - lastt[i] > hang) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hung = 1; }
                else continue;
            }
            pid[i] = 0; --live;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (violation || nondet) continue;
            struct wshm* w = &W[i];
            char key[256], msg[MSG - 512];
            int is_discard = (!hung && w->status == ST_DISCARD);
            if (is_discard) { ++w->discards; }
            else if (!hung && w->status == ST_NONDET) { if (!odd++) snprintf(oddmsg, MSG, "%s", w->msg); if (odd > 200) { nondet = 1; snprintf(vmsg, MSG, "%s", oddmsg); G->stop = 1; continue; } }
            else
            {
                if (hung) { snprintf(key, sizeof key, "hang"); snprintf(msg, sizeof msg, "an execution did not end within %.0f s", hang); }
                else if (w->status == ST_FAIL) { snprintf(key, sizeof key, "%s", w->key); snprintf(msg, sizeof msg, "%s", w->msg); }
                else { snprintf(errpath, sizeof errpath, "%s", werr[i]); crash_key(key, sizeof key, msg, sizeof msg, st); }
                int k = -1;
                for (int j = 0; j < nknown; ++j) if (!strcmp(known[j].key, key)) k = j;
                if (k >= 0) { ++known[k].hits; ++knownhits; }
                else
                {
                    /* confirm by running the same vector again, traced. */
                    static unsigned short v[MAXV], n[MAXV]; int len = w->len;
                    memcpy(v, w->v, sizeof v); memcpy(n, w->n, sizeof n);
                    int scen = w->scenario;
                    static char trace[LOG + 64]; trace[0] = 0;
                    int st2 = -2; long past = w->past, some = past < RING ? past : RING;
                    /* alone, or else after the executions that came before it in its process. */
                    for (long back = 0; ; back = back ? back * 4 : 1)
                    {
                        if (back > some) back = some;
                        nbefore = 0; for (long j = past - back; j < past; ++j) before[nbefore++] = &R[i * RING + j % RING];
                        trace[0] = 0; st2 = run_once(NW_MAX, scen, v, n, len, trace, sizeof trace, 1, hang * 2);
                        if (st2 == -1 || !WIFEXITED(st2) || WEXITSTATUS(st2) != 0 || back >= some) break;
                    }
                    /* one that does not repeat depends on still earlier executions; it is reported once it has come up often enough. */
                    if (st2 != -1 && WIFEXITED(st2) && WEXITSTATUS(st2) == 0 && ++unconfirmed <= 20)
                        fprintf(stderr, "note: unconfirmed failure [%s] %s\n", key, msg);
                    else
                    {
                        violation = 1; G->stop = 1;
                        snprintf(vkey, sizeof vkey, "%s", key); snprintf(vmsg, sizeof vmsg, "%s", msg);
                        snprintf(rpath, sizeof rpath, "%s/%s-%s.replay", replaydir, prop, tag);
                        FILE* f = fopen(rpath, "w");
                        if (f)
                        {
                            fprintf(f, "harness %s\nproperty %s\nbound %d %d %d\nscenario %d\nkey %s\nmessage %s\n", mc_name, prop, mc_bound, mc_bound2, mc_mode, scen, key, msg);
                            for (int b = 0; b < nbefore; ++b) { fprintf(f, "before %d", before[b]->scenario); for (int j = 0; j < before[b]->len; ++j) fprintf(f, " %d/%d", before[b]->v[j], before[b]->n[j]); fputc('\n', f); }
                            fprintf(f, "choices");
                            for (int j = 0; j < len; ++j) fprintf(f, " %d/%d", v[j], n[j]);
                            fprintf(f, "\ncontext %s", w->ctx);
                            fprintf(f, "\n\ntrace:\n%s\n", trace);
                            FILE* e = fopen(werr[i], "r");
                            if (e) { char b[4096]; size_t q; fputs("\nstderr:\n", f); while ((q = fread(b, 1, sizeof b, e)) > 0) fwrite(b, 1, q, f); fclose(e); }
                            fclose(f);
                        }
                        continue;
                    }
                }
            }
            if (G->stop) continue;
            /* carry on after this execution. */
            lastexec[i] = -1; lastt[i] = now();
            fflush(NULL);
            pid[i] = fork();
            if (pid[i] == 0)
            {
                me = &W[i]; int fd = open(werr[i], O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
                worker(1);
            }
            ++live;
        }
    }
    for (int i = 0; i < nw; ++i) unlink(werr[i]);
    long execs = 0, choices = 0, steps = 0, nontriv = 0, disc = 0; int depth = 0;
    for (int i = 0; i < nw; ++i)
    { execs += W[i].execs; choices += W[i].choices; steps += W[i].steps; nontriv += W[i].nontriv; disc += W[i].discards; if (W[i].maxlen > depth) depth = W[i].maxlen; }
    double wall = now() - t0; nbefore = 0;
    if (!violation && !nondet && odd) { nondet = 1; snprintf(vmsg, MSG, "%s", oddmsg); }

    if (outp)
    {
        FILE* f = fopen(outp, "w");
        if (f)
        {
            fprintf(f, "{\"harness\":"); json_str(f, mc_name);
            fprintf(f, ",\"bound\":%d,\"bound2\":%d,\"mode\":%d,\"scenarios\":%d,\"scenarios_done\":%d,\"executions\":%ld,\"choices\":%ld,\"steps\":%ld,\"states\":%ld,\"table_full\":%ld,\"nontrivial\":%ld,\"discarded\":%ld,\"max_choices\":%d,\"wall\":%.3f,\"exhaustive\":%s,\"unconfirmed\":%d",
                mc_bound, mc_bound2, mc_mode, nscen, G->done_scenarios, execs, choices, steps, G->states, G->table_full, nontriv, disc, depth, wall,
                (!timeout && !violation && !nondet && G->done_scenarios == nscen) ? "true" : "false", unconfirmed);
            fprintf(f, ",\"violation\":%s", violation ? "true" : "false");
            if (violation) { fprintf(f, ",\"key\":"); json_str(f, vkey); fprintf(f, ",\"message\":"); json_str(f, vmsg); fprintf(f, ",\"replay\":"); json_str(f, rpath); }
            if (nondet) { fprintf(f, ",\"nondeterminism\":"); json_str(f, vmsg); }
            fprintf(f, ",\"known\":[");
            for (int j = 0, c = 0; j < nknown; ++j) if (known[j].hits) { if (c++) fputc(',', f); fprintf(f, "{\"key\":"); json_str(f, known[j].key); fprintf(f, ",\"hits\":%ld}", known[j].hits); }
            fprintf(f, "],\"samples\":[");
            /* written-out samples: the all-zero path of a few scenarios. */
            int c = 0;
            for (int k = 0; k < 3 && k < nscen && !violation && !nondet; ++k)
            {
                int s = nscen <= 3 ? k : (int)((long)k * (nscen - 1) / 2);
                static char trace[LOG + 64]; unsigned short z[1]; trace[0] = 0;
                sample_seed = (uint64_t)k + 1;
                int st = run_once(NW_MAX, s, z, z, 0, trace, sizeof trace, 1, hang);
                (void)st; trace[1200] = 0;
                if (c++) fputc(',', f);
                fprintf(f, "{\"scenario\":%d,\"trace\":", s); json_str(f, trace); fputc('}', f);
            }
            fprintf(f, "]}\n"); fclose(f);
        }
    }
    if (nondet) { printf("ENGINE: %s\n", vmsg); return 2; }
    if (violation) { printf("FAIL [%s] %s replay=%s\n", vkey, vmsg, rpath); return 1; }
    return 0;
}
