/* Preloaded into R: the searches wait for a second before they look at their
 * progress; long sleeps are cut to some milliseconds. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
static void cut(const struct timespec *a, struct timespec *b) {
  *b = *a;
  if (b->tv_sec > 0 || b->tv_nsec > 3000000)
    b->tv_sec = 0, b->tv_nsec = 3000000;
}
int nanosleep(const struct timespec *a, struct timespec *r) {
  struct timespec b;
  cut(a, &b);
  return ((int (*)(const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "nanosleep"))(&b, r);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *r) {
  struct timespec b = *a;
  if (!(f & TIMER_ABSTIME))
    cut(a, &b);
  return ((int (*)(clockid_t, int, const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "clock_nanosleep"))(c, f, &b, r);
}
