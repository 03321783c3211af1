/* Loaded into the program under test: its clocks run ahead of the real ones by as many seconds
   as the file named by VP_CLOCK says. SIGUSR2 only wakes a thread that sleeps. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static volatile long none, *ahead = &none;

static void woken(int s) { (void)s; }

__attribute__((constructor)) static void begin(void) {
    const char *p = getenv("VP_CLOCK");
    int f = p ? open(p, O_RDONLY | O_CLOEXEC) : -1;
    if (f < 0) return;
    void *m = mmap(0, sizeof(long), PROT_READ, MAP_SHARED, f, 0);
    close(f);
    if (m == MAP_FAILED) return;
    struct sigaction a = {0};
    a.sa_handler = woken;
    a.sa_flags = SA_RESTART;
    sigaction(SIGUSR2, &a, 0);
    ahead = m;
}

int clock_gettime(clockid_t id, struct timespec *t) {
    long r = syscall(SYS_clock_gettime, id, t);
    if (r) return -1;
    if (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME || id == CLOCK_BOOTTIME) t->tv_sec += *ahead;
    return 0;
}
