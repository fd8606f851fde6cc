/*
 * The periodic work of the main thread at generated times, on the pipeline of d_core.
 */
#include "per.h"
#define D_EXTRA_OPS {"pinit", op_pinit}, {"pcall", op_pcall},
static void op_pinit(int argc, char **argv);
static void op_pcall(int argc, char **argv);
#define T(n) {#n, (int*)&g.n, NULL, NULL}	/* the high half of a time_t remains 0 */
#define D_EXTRA_SETTINGS S(scheduler), S(qstatelogfile), S(qdbstatslogfile), S(mspoolbdb_dbstats_logfile), \
  T(mspoolbdb_dbstats_logperiod_secs), T(nbspstats_logperiod_secs), T(qstate_logperiod_secs), T(serverstate_logperiod_secs), \
  I(queue_quota_logperiod_secs), I(rtxdb_truncate_minutes), I(loadave_checkperiod_secs),
#include "d_core.c"
#include <sys/time.h>

static time_t faked;

time_t time(time_t *p){
  struct timeval tv;
  time_t t = faked;
  if(t == 0){
    gettimeofday(&tv, NULL);
    t = tv.tv_sec;
  }
  if(p) *p = t;
  return t;
}

static long lines(const char *name){
  FILE *f = fopen(name, "r");
  long n = 0;
  int c;
  if(f == NULL) return 0;
  while((c = fgetc(f)) != EOF) n += c == '\n';
  fclose(f);
  return n;
}

static void op_pinit(int argc, char **argv){
  faked = num(argv[1]);
  init_periodic();
  faked = 0;
  out("pinit");
}

/* pcall TIME SCHEDLOG EXPECTED: one turn of the main loop; waits for the scheduler to have run EXPECTED times */
static void op_pcall(int argc, char **argv){
  int i;
  faked = num(argv[1]);
  periodic();
  faked = 0;
  for(i = 0; i < 300 && lines(argv[2]) < num(argv[3]); ++i) usleep(10000);
  out("pcall %ld %ld %ld", lines(g.qstatelogfile), lines(g.statusfile), lines(argv[2]));
}
