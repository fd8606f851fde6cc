/* LD_PRELOAD: the time of day is the one in the environment variable NBSP_NOW (seconds), when it is set, or the one in
   the file that NBSP_NOWFILE names. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int now(time_t *t){
  const char *s = getenv("NBSP_NOW"), *f = getenv("NBSP_NOWFILE");
  char b[40];
  int fd, n;
  if(f != NULL && (fd = open(f, O_RDONLY)) != -1){
    n = read(fd, b, sizeof(b) - 1);
    close(fd);
    if(n > 0){
      b[n] = '\0';
      *t = (time_t)strtoll(b, NULL, 10);
      return 1;
    }
  }
  if(s == NULL || *s == '\0')
    return 0;
  *t = (time_t)strtoll(s, NULL, 10);
  return 1;
}

int clock_gettime(clockid_t id, struct timespec *ts){
  time_t t;
  if((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && now(&t)){
    ts->tv_sec = t;
    ts->tv_nsec = 0;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz){
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  if(tv != NULL){
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
  }
  return 0;
}

time_t time(time_t *p){
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if(p != NULL)
    *p = ts.tv_sec;
  return ts.tv_sec;
}

int timespec_get(struct timespec *ts, int base){
  clock_gettime(CLOCK_REALTIME, ts);
  return base;
}
