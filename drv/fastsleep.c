/* LD_PRELOAD: sleep() takes a fiftieth of the time and the clock of time() runs ten times as fast. */
#include <time.h>
#include <sys/time.h>

unsigned int sleep(unsigned int s){
  struct timespec t = {s / 50, (s % 50) * 20000000L};
  nanosleep(&t, 0);
  return 0;
}

time_t time(time_t *p){
  static long long start;
  struct timeval tv;
  long long n;
  gettimeofday(&tv, 0);
  n = tv.tv_sec * 10LL + tv.tv_usec / 100000;
  if(start == 0) start = tv.tv_sec * 10LL;
  n = start / 10 + (n - start);
  if(p) *p = n;
  return n;
}
