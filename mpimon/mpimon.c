/* Observes the MPI calls of a program (PMPI interposition, LD_PRELOAD).
 *
 *  - Every send and receive is logged with a hash of its packed payload. The log of all ranks is
 *    checked afterwards (mpitrace.py): per (source, destination, tag) what is received is what was
 *    sent, in order, exactly once, and nothing is left over at the end.
 *  - The buffer of a pending immediate send is hashed again when the send completes: it must not
 *    have changed in between. Requests that are never completed are reported at the end.
 *  - Blocking calls are polled here. When every rank has only polled, a great many times, since
 *    the last event anywhere, nothing can happen any more: a deadlock, decided on counts of polls.
 *  - Random delays and synchronous immediate sends (both allowed by the standard) vary the schedule.
 *
 * MPIMON_DIR     directory for the logs and the shared state (required)
 * MPIMON_SEED    seed of the delays          MPIMON_DELAY  percentage of calls that are delayed
 * MPIMON_SYNC    percentage of immediate sends that are made synchronous
 * MPIMON_MAX_US  longest delay in microseconds
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <mpi.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXRANKS 64
#define BLOCKING_POLLS 300000L
#define NONBLOCKING_POLLS 20000000L

typedef struct {
    _Atomic long events_seen, polls, blocked, finished;
    _Atomic int peer, tag;
    char call[24];
    char pad[64];
} Rank;
typedef struct {
    _Atomic long events;
    _Atomic int dead;
    char pad[64];
    Rank ranks[MAXRANKS];
} Shared;

static Shared *sh, private_shared;
static int rank = -1, size, active;
static FILE *logf;
static char dir[512];
static uint64_t rng;
static int p_delay, p_sync, max_us = 300;
static long n_delays, n_sync, n_isend, n_modified, n_calls;

typedef struct Pending {
    MPI_Request req;
    const void *buf;
    int count, dst, tag;
    MPI_Datatype type;
    uint64_t hash;
    struct Pending *next;
} Pending;
static Pending *pending;

static uint64_t next(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng;
}
static int env(const char *k, int d) { const char *v = getenv(k); return v ? atoi(v) : d; }

static void note(const char *kind, const char *text) {
    if (!logf) return;
    fprintf(logf, "V %s %s\n", kind, text);
    fflush(logf);
}

static void event(void) { atomic_fetch_add(&sh->events, 1); }

static void start(const char *call, int peer, int tag) {
    Rank *r = &sh->ranks[rank < 0 ? 0 : rank];
    snprintf(r->call, sizeof r->call, "%s", call);
    r->peer = peer; r->tag = tag;
    n_calls++;
    if (active && p_delay && (int)(next() % 100) < p_delay) {
        n_delays++;
        uint64_t us = next() % (uint64_t)max_us;
        if (next() % 4 == 0) for (int i = 0; i < 20; i++) sched_yield(); else usleep(us);
    }
}

/* Nothing came of the call: count it, and see whether anything can still happen. */
static void idle(int blocking) {
    if (!active) return;
    Rank *me = &sh->ranks[rank];
    long e = atomic_load(&sh->events);
    if (atomic_load(&me->events_seen) != e) { me->events_seen = e; me->polls = 0; }
    long polls = atomic_fetch_add(&me->polls, 1) + 1;
    me->blocked = blocking;
    if (blocking) sched_yield();
    if (polls % 4096) return;
    if (atomic_load(&sh->dead)) { fflush(logf); _exit(87); }
    for (int i = 0; i < size; i++) {
        Rank *r = &sh->ranks[i];
        if (atomic_load(&r->finished)) continue;
        long need = atomic_load(&r->blocked) ? BLOCKING_POLLS : NONBLOCKING_POLLS;
        if (atomic_load(&r->events_seen) != e || atomic_load(&r->polls) < need) return;
    }
    if (atomic_load(&sh->events) != e) return;
    int zero = 0;
    if (atomic_compare_exchange_strong(&sh->dead, &zero, 1)) {
        char text[4096]; int n = 0;
        for (int i = 0; i < size && n < 3900; i++) {
            Rank *r = &sh->ranks[i];
            n += snprintf(text + n, sizeof text - n, "rank %d %s(peer %d, tag %d, %ld polls); ", i,
                          r->finished ? "finished" : r->call, (int)r->peer, (int)r->tag, (long)r->polls);
        }
        note("deadlock", text);
        fprintf(stderr, "mpimon: deadlock: %s\n", text);
    }
    fflush(logf);
    _exit(87);
}

static uint64_t hash_bytes(const unsigned char *p, size_t n) {
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ULL; }
    return h;
}
/* The payload as it goes over the wire. `ok` is 0 if the buffer cannot be read any more. */
static uint64_t hash_payload(const void *buf, int count, MPI_Datatype t, int *ok, size_t *bytes) {
    *ok = 1;
    int psize = 0, pos = 0;
    if (count == 0) { *bytes = 0; return 0; }
    MPI_Aint lb, ext;
    PMPI_Type_get_extent(t, &lb, &ext);
    size_t raw = (size_t)ext * count;
    char *copy = malloc(raw + 1);
    struct iovec l = {copy, raw}, r = {(void *)buf, raw};
    if (process_vm_readv(getpid(), &l, 1, &r, 1, 0) != (ssize_t)raw) {
        /* not allowed to look, or gone */
        unsigned char probe;
        struct iovec l2 = {&probe, 1}, r2 = {&probe, 1};
        if (process_vm_readv(getpid(), &l2, 1, &r2, 1, 0) == 1) { *ok = 0; free(copy); return 0; }
        memcpy(copy, buf, raw);
    }
    PMPI_Pack_size(count, t, MPI_COMM_WORLD, &psize);
    char *packed = malloc(psize + 1);
    PMPI_Pack(copy, count, t, packed, psize, &pos, MPI_COMM_WORLD);
    uint64_t h = hash_bytes((unsigned char *)packed, pos);
    *bytes = pos;
    free(packed); free(copy);
    return h;
}

static void log_msg(char kind, int peer, int tag, uint64_t h, size_t bytes) {
    if (logf) fprintf(logf, "%c %d %d %016lx %zu\n", kind, peer, tag, (unsigned long)h, bytes);
}

static void setup(void) {
    sh = &private_shared;
    PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
    PMPI_Comm_size(MPI_COMM_WORLD, &size);
    const char *d = getenv("MPIMON_DIR");
    if (!d || size > MAXRANKS) return;
    snprintf(dir, sizeof dir, "%s", d);
    char path[600];
    snprintf(path, sizeof path, "%s/state", dir);
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return;
    void *m = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) return;
    sh = m;
    snprintf(path, sizeof path, "%s/rank%d.log", dir, rank);
    logf = fopen(path, "w");
    rng = 88172645463325252ULL ^ ((uint64_t)env("MPIMON_SEED", 1) * 0x9E3779B97F4A7C15ULL) ^ ((uint64_t)(rank + 1) << 32);
    for (int i = 0; i < 8; i++) next();
    p_delay = env("MPIMON_DELAY", 0);
    p_sync = env("MPIMON_SYNC", 0);
    max_us = env("MPIMON_MAX_US", 300);
    PMPI_Barrier(MPI_COMM_WORLD);
    active = logf != NULL;
}

int MPI_Init(int *c, char ***v) { int r = PMPI_Init(c, v); setup(); return r; }
int MPI_Init_thread(int *c, char ***v, int a, int *b) { int r = PMPI_Init_thread(c, v, a, b); setup(); return r; }

int MPI_Finalize(void) {
    if (active) {
        for (Pending *p = pending; p; p = p->next) {
            char t[100];
            snprintf(t, sizeof t, "to rank %d tag %d count %d", p->dst, p->tag, p->count);
            note("request_never_completed", t);
        }
        fprintf(logf, "E calls %ld delays %ld isends %ld synchronous %ld\n", n_calls, n_delays, n_isend, n_sync);
        fclose(logf); logf = NULL; active = 0;
        atomic_store(&sh->ranks[rank].finished, 1);
        event();
    }
    return PMPI_Finalize();
}

static int complete(MPI_Request *req, MPI_Status *st, const char *name, int peer, int tag) {
    int flag = 0, r;
    start(name, peer, tag);
    for (;;) {
        r = PMPI_Test(req, &flag, st);
        if (flag || r != MPI_SUCCESS) break;
        idle(1);
    }
    event();
    return r;
}

static void completed(MPI_Request req) {
    for (Pending **p = &pending; *p; p = &(*p)->next) {
        if ((*p)->req == req) {
            Pending *q = *p;
            int ok; size_t bytes;
            uint64_t h = hash_payload(q->buf, q->count, q->type, &ok, &bytes);
            if (!ok || h != q->hash) {
                char t[160];
                n_modified++;
                snprintf(t, sizeof t, "to rank %d tag %d count %d %s", q->dst, q->tag, q->count, ok ? "changed" : "was freed");
                note("buffer_of_pending_send", t);
            }
            *p = q->next;
            PMPI_Type_free(&q->type);
            free(q);
            return;
        }
    }
}

int MPI_Isend(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *req) {
    if (!active) return PMPI_Isend(buf, count, t, dst, tag, c, req);
    start("Isend", dst, tag);
    int ok; size_t bytes;
    uint64_t h = hash_payload(buf, count, t, &ok, &bytes);
    log_msg('S', dst, tag, h, bytes);
    n_isend++;
    int r;
    if (p_sync && (int)(next() % 100) < p_sync) { n_sync++; r = PMPI_Issend(buf, count, t, dst, tag, c, req); }
    else r = PMPI_Isend(buf, count, t, dst, tag, c, req);
    event();
    Pending *p = malloc(sizeof *p);
    /* the program may free its handle of the type before the send is complete */
    MPI_Datatype kept;
    PMPI_Type_dup(t, &kept);
    *p = (Pending){*req, buf, count, dst, tag, kept, h, pending};
    pending = p;
    return r;
}

int MPI_Send(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
    if (!active) return PMPI_Send(buf, count, t, dst, tag, c);
    int ok; size_t bytes;
    uint64_t h = hash_payload(buf, count, t, &ok, &bytes);
    log_msg('S', dst, tag, h, bytes);
    MPI_Request req;
    MPI_Status st;
    start("Send", dst, tag);
    int r = PMPI_Isend(buf, count, t, dst, tag, c, &req);
    event();
    if (r != MPI_SUCCESS) return r;
    return complete(&req, &st, "Send", dst, tag);
}

int MPI_Wait(MPI_Request *req, MPI_Status *st) {
    if (!active) return PMPI_Wait(req, st);
    MPI_Request old = *req;
    int r = complete(req, st, "Wait", -1, -1);
    completed(old);
    return r;
}
int MPI_Test(MPI_Request *req, int *flag, MPI_Status *st) {
    if (!active) return PMPI_Test(req, flag, st);
    MPI_Request old = *req;
    start("Test", -1, -1);
    int r = PMPI_Test(req, flag, st);
    if (*flag) { event(); completed(old); } else idle(0);
    return r;
}
int MPI_Request_free(MPI_Request *req) {
    if (active) { note("request_freed", "before it was complete"); }
    return PMPI_Request_free(req);
}

int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message *m, MPI_Status *st) {
    if (!active) return PMPI_Mprobe(src, tag, c, m, st);
    int flag = 0, r;
    start("Mprobe", src, tag);
    for (;;) {
        r = PMPI_Improbe(src, tag, c, &flag, m, st);
        if (flag || r != MPI_SUCCESS) break;
        idle(1);
    }
    event();
    return r;
}
int MPI_Improbe(int src, int tag, MPI_Comm c, int *flag, MPI_Message *m, MPI_Status *st) {
    if (!active) return PMPI_Improbe(src, tag, c, flag, m, st);
    start("Improbe", src, tag);
    int r = PMPI_Improbe(src, tag, c, flag, m, st);
    if (*flag) event(); else idle(0);
    return r;
}
static void received(void *buf, MPI_Datatype t, MPI_Status *st) {
    int n, ok; size_t bytes;
    PMPI_Get_count(st, t, &n);
    uint64_t h = hash_payload(buf, n, t, &ok, &bytes);
    log_msg('R', st->MPI_SOURCE, st->MPI_TAG, h, bytes);
}
int MPI_Mrecv(void *buf, int count, MPI_Datatype t, MPI_Message *m, MPI_Status *st) {
    if (!active) return PMPI_Mrecv(buf, count, t, m, st);
    MPI_Status s;
    MPI_Request req;
    int r = PMPI_Imrecv(buf, count, t, m, &req);
    if (r != MPI_SUCCESS) return r;
    r = complete(&req, &s, "Mrecv", -1, -1);
    received(buf, t, &s);
    if (st != MPI_STATUS_IGNORE) *st = s;
    return r;
}
int MPI_Recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
    if (!active) return PMPI_Recv(buf, count, t, src, tag, c, st);
    MPI_Status s;
    MPI_Request req;
    int r = PMPI_Irecv(buf, count, t, src, tag, c, &req);
    if (r != MPI_SUCCESS) return r;
    r = complete(&req, &s, "Recv", src, tag);
    received(buf, t, &s);
    if (st != MPI_STATUS_IGNORE) *st = s;
    return r;
}

#define COLLECTIVE(NAME, CALL)                                   \
    MPI_Request req; MPI_Status st;                              \
    start(NAME, -1, -1);                                         \
    int r = CALL;                                                \
    event();                                                     \
    if (r != MPI_SUCCESS) return r;                              \
    if (logf) fprintf(logf, "C %s\n", NAME);                     \
    return complete(&req, &st, NAME, -1, -1);

int MPI_Allgather(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c) {
    if (!active) return PMPI_Allgather(a, n, t, b, m, u, c);
    COLLECTIVE("Allgather", PMPI_Iallgather(a, n, t, b, m, u, c, &req))
}
int MPI_Allgatherv(const void *a, int n, MPI_Datatype t, void *b, const int m[], const int d[], MPI_Datatype u, MPI_Comm c) {
    if (!active) return PMPI_Allgatherv(a, n, t, b, m, d, u, c);
    COLLECTIVE("Allgatherv", PMPI_Iallgatherv(a, n, t, b, m, d, u, c, &req))
}
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    if (!active) return PMPI_Allreduce(a, b, n, t, o, c);
    COLLECTIVE("Allreduce", PMPI_Iallreduce(a, b, n, t, o, c, &req))
}
int MPI_Barrier(MPI_Comm c) {
    if (!active) return PMPI_Barrier(c);
    COLLECTIVE("Barrier", PMPI_Ibarrier(c, &req))
}
