/* LD_PRELOAD library for C30: a clock that starts elsewhere, runs at another speed and jumps.
   CLOCKSHIM="offset_seconds scale jump_seconds jump_every" */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static long long offset_s, jump_s, jump_every, calls;
static double scale = 1;
static int ready;
static int (*real)(clockid_t, struct timespec *);

static void init(void) {
  if (ready)
    return;
  real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  const char *e = getenv("CLOCKSHIM");
  if (e)
    sscanf(e, "%lld %lf %lld %lld", &offset_s, &scale, &jump_s, &jump_every);
  ready = 1;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  static struct timespec first[16];
  init();
  int r = real(id, ts);
  if (r != 0 || (unsigned)id >= 16)
    return r;
  if (first[id].tv_sec == 0 && first[id].tv_nsec == 0)
    first[id] = *ts;
  double d = ((double)(ts->tv_sec - first[id].tv_sec) + (double)(ts->tv_nsec - first[id].tv_nsec) * 1e-9) * scale;
  calls++;
  if (jump_every > 0)
    d += (double)(calls / jump_every * jump_s);
  long long s = (long long)d;
  long ns = (long)((d - (double)s) * 1e9) + first[id].tv_nsec;
  s += first[id].tv_sec + (id == CLOCK_REALTIME ? offset_s : 0);
  while (ns >= 1000000000L) { ns -= 1000000000L; s++; }
  while (ns < 0) { ns += 1000000000L; s--; }
  ts->tv_sec = s;
  ts->tv_nsec = ns;
  return 0;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  struct timespec ts;
  int r = clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return r;
}

time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
