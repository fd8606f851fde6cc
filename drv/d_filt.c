/*
 * The filter server of nbspd: real products go through the pipeline, the real
 * filter thread sends their announcements to programs and fifos.
 */
#define _GNU_SOURCE
#include "drvrt.h"
static void op_filtstart(int, char **), op_reload(int, char **), op_lines(int, char **), op_state(int, char **),
  op_rdopen(int, char **), op_rdclose(int, char **), op_rd(int, char **), op_gone(int, char **),
  op_filtstop(int, char **), op_mv(int, char **), op_rm(int, char **);
#define D_EXTRA_OPS \
  {"filtstart", op_filtstart}, {"reload", op_reload}, {"lines", op_lines}, {"state", op_state}, {"rdopen", op_rdopen}, \
  {"rdclose", op_rdclose}, {"rd", op_rd}, {"gone", op_gone}, {"filtstop", op_filtstop}, {"mv", op_mv}, {"rm", op_rm},
#define D_EXTRA_SETTINGS \
  S(sysfilterlist), S(filterdevdir), I(fifo_write_timeout_ms), S(filterserver_statefile),
#include "d_core.c"
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include "filters.h"

static void op_filtstart(int argc, char **argv){
  int st;
  signal(SIGPIPE, SIG_IGN);
  st = start_common();
  g.f_filter_thread_created = 0;
  if(st == 0) st = spawn_filter_server();
  out("start %d", st);
}

static void op_reload(int argc, char **argv){ set_reload_filters_flag(); }

/* lines of a file that start with a pattern */
static int count(const char *f, const char *pat){
  char l[8192];
  int n = 0;
  FILE *p = fopen(f, "r");
  while(p && fgets(l, sizeof l, p)) if(strncmp(l, pat, strlen(pat)) == 0) ++n;
  if(p) fclose(p);
  return n;
}

/* lines hexfile hexpattern count ms: waits until the file has so many lines that start with the pattern */
static void op_lines(int argc, char **argv){
  char *f = unhexstr(argv[1]), *p = unhexstr(argv[2]);
  double t0 = now();
  int ok;
  while(!(ok = count(f, p) >= num(argv[3])) && (now() - t0) * 1000 < num(argv[4])) msleep(1);
  out("lines %d", ok);
  free(f);
  free(p);
}

/* state ms: asks for a report and waits for it */
static void op_state(int argc, char **argv){
  double t0 = now();
  int n = count(g.filterserver_statefile, "- "), ok;
  set_filterserver_state_flag();
  while(!(ok = count(g.filterserver_statefile, "- ") > n) && (now() - t0) * 1000 < num(argv[1])) msleep(1);
  out("state %d", ok);
}

static int rdfd[16];
/* rdopen k hexfifo */
static void op_rdopen(int argc, char **argv){
  char *f = unhexstr(argv[2]);
  int k = num(argv[1]);
  rdfd[k] = open(f, O_RDONLY|O_NONBLOCK|O_CLOEXEC);
  if(rdfd[k] == -1) die("open %s", f);
  fcntl(rdfd[k], F_SETPIPE_SZ, 8192);
  free(f);
}
static void op_rdclose(int argc, char **argv){ close(rdfd[num(argv[1])]); }

/* rd k: everything that can be read */
static void op_rd(int argc, char **argv){
  static unsigned char b[1 << 20];
  size_t n = 0;
  ssize_t r;
  char *h;
  while(n < sizeof b && (r = read(rdfd[num(argv[1])], b + n, sizeof b - n)) > 0) n += r;
  h = hexof(b, n);
  out("rd %s %s", argv[1], h);
  free(h);
}

static int ended(int pid){
  char l[1024], path[64], st = 'Z';
  FILE *p;
  snprintf(path, sizeof path, "/proc/%d/stat", pid);
  p = fopen(path, "r");
  if(p && fgets(l, sizeof l, p) && strrchr(l, ')')) st = strrchr(l, ')')[2];
  if(p) fclose(p);
  return st == 'Z';
}

/* gone hexlog n ms: waits until the process that the n-th "dead" line of the log names has ended, and the shell that ran it */
static void op_gone(int argc, char **argv){
  char *f = unhexstr(argv[1]), l[8192];
  double t0 = now();
  int ok = 0;
  do {
    FILE *p = fopen(f, "r");
    int n = num(argv[2]), pid = 0, ppid = 0;
    while(p && fgets(l, sizeof l, p)) if(strncmp(l, "dead ", 5) == 0 && --n == 0 && strchr(l, '\n')) sscanf(l + 5, "%d %d", &pid, &ppid);
    if(p) fclose(p);
    ok = pid && ended(pid) && (ppid == getpid() || ended(ppid));
    if(!ok) msleep(1);
  } while(!ok && (now() - t0) * 1000 < num(argv[3]));
  out("gone %d", ok);
  free(f);
}

static void op_filtstop(int argc, char **argv){
  set_quit_flag();
  kill_filter_thread();
  kill_processor_thread();
  out("filtstop");
}

/* mv hexfrom hexto */
static void op_mv(int argc, char **argv){
  char *a = unhexstr(argv[1]), *b = unhexstr(argv[2]);
  if(rename(a, b)) die("rename %s", a);
  free(a);
  free(b);
}
static void op_rm(int argc, char **argv){
  char *a = unhexstr(argv[1]);
  if(unlink(a)) die("unlink %s", a);
  free(a);
}
