/* Shared layout between the shim (libtsim.so) and the harness (harness/src/psim.rs). */
#ifndef TSIM_H
#define TSIM_H
#include <stdint.h>

#define TSIM_MAGIC 0x7453494du
#define TSIM_MAX_FAULTS 16
#define TSIM_MAX_EVENTS 65536
#define TSIM_MAX_PATHS 128
#define TSIM_PATH_LEN 160

enum {
    OP_OPEN = 1, OP_READ, OP_WRITE, OP_LSEEK, OP_FTRUNC, OP_FSYNC, OP_RENAME, OP_UNLINK,
    OP_CHMOD, OP_STAT, OP_CFR, OP_SENDFILE, OP_REALPATH, OP_LINK, OP_CLOSE, OP_SPLICE, OP_MKDIR,
    OP_OTHER
};

enum {
    F_ERR = 1,       /* the call fails with err                                       */
    F_SHORT = 2,     /* transfer at most arg bytes                                    */
    F_EOF = 3,       /* reads of this path return 0 from this call on                 */
    F_KILL_BEFORE = 4,
    F_KILL_MID = 5,  /* transfer arg bytes, then die                                  */
    F_KILL_AFTER = 6,
    F_ERR_PATH = 7,  /* this and all later calls of this op on this path fail         */
    F_ERR_WRITES = 8, /* this and all later calls that change a tracked file fail     */
    F_ERR_READS = 9, /* this and all later reads of any file and the console fail     */
    F_EOF_READS = 10 /* this and all later reads of any file and the console return 0 */
};

struct tsim_fault { uint32_t idx, kind; int32_t err; uint32_t arg; uint32_t fired; uint32_t pad; };

struct tsim_event {
    uint32_t idx;      /* index of the call, 0xffffffff for calls that cannot be faulted */
    uint16_t op;
    uint16_t fault;    /* 0 none, F_*, 100 benign short, 101 benign EINTR, 102 disk full, 103 benign ENOSYS */
    int32_t path;      /* path id; 0,1,2 are the console                               */
    int32_t path2;
    int64_t arg;       /* requested length, open flags, seek offset, mode              */
    int64_t ret;
    int32_t err;
    uint32_t flags;    /* 1: opened for writing; for stat etc. unused                  */
};

struct tsim {
    uint32_t magic;
    uint32_t p_short, p_eintr;    /* out of 1024 */
    uint32_t cfr_mode;            /* 0 as is, 1 ENOSYS on first, 2 EXDEV on first, 3 short */
    uint64_t seed;                /* of the benign noise */
    uint64_t entropy;             /* of getrandom */
    int64_t disk_capacity;        /* bytes, negative: unlimited */
    uint32_t call_budget;
    uint32_t cpu_limit_s;
    uint32_t n_faults;
    uint32_t umask_;
    uint32_t sched;               /* 1: every call waits for its turn (file descriptors 198 and 199) */
    uint32_t pid;
    struct tsim_fault faults[TSIM_MAX_FAULTS];
    char scratch[TSIM_PATH_LEN];
    /* outcome */
    uint32_t n_calls, n_events, n_paths, over_budget;
    uint64_t entropy_calls;
    uint32_t killed, cfr_seen;
    uint32_t events_lost, disk_full_hits;
    uint64_t disk_used;
    uint8_t eof_path[TSIM_MAX_PATHS];
    char paths[TSIM_MAX_PATHS][TSIM_PATH_LEN];
    struct tsim_event ev[TSIM_MAX_EVENTS];
};
#endif
