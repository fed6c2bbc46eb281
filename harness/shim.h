/* Control interface of the interposed layer linked into every library build. */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
struct shim_state
{
    /* cpu level offered to the library: -1 real cpu, 0 nothing, 1 up to SSE3,
     * 2 everything up to SSE4.1 and beyond */
    int cpu_level;
    long cpuid_calls;
    /* allocator */
    int track;              /* keep the list of live blocks */
    long allocs, frees;     /* events so far */
    long live_blocks;
    long live_bytes;
    long peak_bytes;
    long bad_frees;         /* free of something never allocated / twice */
    long fail_in;           /* >0: the fail_in-th allocation from now fails */
    long fail_every;        /* after the first failure, fail every n-th; 0 no more */
    long failed;            /* allocations refused so far */
    int junk;               /* byte used to fill fresh malloc memory / freed memory; -2: fresh memory
                             * holds what a released block of that size held */
    long recycled;          /* blocks handed out with old contents */
    int jitter;             /* extra 16-byte steps in front of each block */
    int world;              /* != 0: the clock, the environment, the process id look different */
    long world_asked;       /* times the library asked for one of them */
    /* red zones */
    int rz_mode;            /* 0 canary, 1 asan, 2 valgrind, 3 off */
    long rz_armed;          /* zones ever registered */
    int rz_fill;            /* canary byte */
};
struct shim_state *shim_get(void);
/* number of damaged canary zones since the last call */
long shim_check_zones(void);
#ifdef __cplusplus
}
#endif
