/* LD_PRELOAD library for C31: counts the bytes in use on the heap; the peak, the recent
   peak, the bytes still in use and the number of calls are written to the file $HEAPSHIM_OUT at exit. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

#define WINDOW 65536
static atomic_llong used, peak, calls, window[2];

static void *add(void *p) {
  if (p) {
    long long u = atomic_fetch_add(&used, (long long)malloc_usable_size(p)) + (long long)malloc_usable_size(p);
    if (u > atomic_load(&peak))
      atomic_store(&peak, u);
    /* the peak in the present and in the previous window of calls */
    if (atomic_fetch_add(&calls, 1) % WINDOW == 0) {
      window[1] = window[0];
      window[0] = 0;
    }
    if (u > window[0])
      window[0] = u;
  }
  return p;
}

static void sub(void *p) {
  if (p)
    atomic_fetch_sub(&used, (long long)malloc_usable_size(p));
}

void *malloc(size_t n) { return add(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return add(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
  *p = add(__libc_memalign(a, n));
  return *p ? 0 : ENOMEM;
}
void *realloc(void *p, size_t n) {
  sub(p);
  void *q = __libc_realloc(p, n);
  if (!q && n)
    add(p);
  return add(q);
}
void free(void *p) {
  sub(p);
  __libc_free(p);
}

__attribute__((destructor)) static void done(void) {
  const char *f = getenv("HEAPSHIM_OUT");
  if (!f)
    return;
  char b[100];
  int n = snprintf(b, sizeof b, "%lld %lld %lld %lld\n", (long long)peak, (long long)(window[0] > window[1] ? window[0] : window[1]), (long long)used, (long long)calls);
  int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    if (write(fd, b, (size_t)n) < 0) {}
    close(fd);
  }
}
