/*
 * The network server of nbspd: real products go through the pipeline, the
 * real server and client threads send them to scripted clients (TCP over the
 * loopback network). Seconds are TICK_MS long.
 */
#define _GNU_SOURCE
#include "drvrt.h"
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
static void op_srvstart(int, char **), op_client(int, char **), op_say(int, char **), op_ready(int, char **),
  op_pause(int, char **), op_resume(int, char **), op_closed(int, char **), op_bye(int, char **),
  op_until(int, char **), op_dump(int, char **), op_probe(int, char **), op_name(int, char **),
  op_srvstop(int, char **), op_fds(int, char **), op_total(int, char **), op_reload(int, char **), op_gone(int, char **),
  op_state(int, char **), op_flog(int, char **), op_mv(int, char **), op_reloadwait(int, char **), op_exists(int, char **), op_socks(int, char **), op_opts(int, char **);
#define D_EXTRA_OPS \
  {"srvstart", op_srvstart}, {"client", op_client}, {"say", op_say}, {"ready", op_ready}, {"pause", op_pause}, \
  {"resume", op_resume}, {"closed", op_closed}, {"bye", op_bye}, {"until", op_until}, {"dump", op_dump}, \
  {"probe", op_probe}, {"name", op_name}, {"srvstop", op_srvstop}, {"fds", op_fds}, {"total", op_total}, \
  {"reload", op_reload}, {"gone", op_gone}, {"state", op_state}, {"flog", op_flog}, {"mv", op_mv}, {"reloadwait", op_reloadwait}, {"exists", op_exists}, {"socks", op_socks}, {"opts", op_opts},
#define D_EXTRA_SETTINGS \
  I(servertype), S(servername), S(serverport), I(server_maxclients), I(server_listen_backlog), I(server_so_sndbuf), \
  I(server_clientid_timeout_secs), I(server_clientqlimit_logperiod_secs), I(client_write_timeout_ms), \
  I(client_write_timeout_retry), I(client_reconnect_wait_sleep_secs), I(client_reconnect_wait_sleep_retry), \
  I(client_queue_read_timeout_ms), I(client_queue_maxsize_soft), I(client_queue_maxsize_hard), \
  I(client_queue_dbcache_mb), I(serverthreads_logperiod_packets), I(serverthreads_logperiod_secs), \
  S(serverthreadsfile), S(serverstatefile), S(serveractivefile), S(clientoptions), I(emwinfilter_always), \
  S(emwinfilter), S(emwinfilter_fifo), I(emwinfilter_read_timeout_secs), I(netfilter_enable), S(netfilter),
#include "d_core.c"
#include "libconnth/conn.h"
#include "libconnth/ce.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <signal.h>
#include "server.h"

#define TICK_MS 4
static double tick0;

static double mono(void){
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1e3 + t.tv_nsec / 1e6;
}

/* the server polls its connections once per second of this clock */
time_t time(time_t *p){
  time_t t;
  if(tick0 == 0) tick0 = mono();
  t = 1600000000 + (time_t)((mono() - tick0) / TICK_MS);
  if(p) *p = t;
  return t;
}

unsigned int sleep(unsigned int s){
  struct timespec t = {s * TICK_MS / 1000, (s * TICK_MS % 1000) * 1000000L};
  nanosleep(&t, NULL);
  return 0;
}

static struct { unsigned int a; char *n; } names[16];
static int nnames;
struct hostent *gethostbyaddr(const void *a, socklen_t n, int t){
  static struct hostent h;
  int i;
  for(i = 0; i < nnames; ++i)
    if(memcmp(a, &names[i].a, 4) == 0){ h.h_name = names[i].n; return &h; }
  return NULL;
}

/* name ip hexname */
static void op_name(int argc, char **argv){
  names[nnames].a = inet_addr(argv[1]);
  names[nnames++].n = unhexstr(argv[2]);
}

/*
 * The emwin filter: the program itself, run by the server through popen with
 * "--emwin rulesfile fifo". The rule of a product is the line
 * "seq status size1 size2 cut delay path name" (seq 0: any other).
 */
static int emwin_main(const char *rules, const char *fifo){
  char line[4096], rl[4096], all[4096];
  FILE *r = fopen(rules, "r"), *lg;
  char lf[4096];
  snprintf(lf, sizeof lf, "%s.log", rules);
  lg = fopen(lf, "a");
  fprintf(lg, "open\n");
  fflush(lg);
  while(fgets(line, sizeof line, stdin)){
    int fd, st = 1, s1 = 0, s2 = 0, cut = 0, delay = 0, o = 0, i;
    char path[2048] = "", name[256] = "";
    unsigned char b[4096];
    if(line[0] == '\n') break;
    fprintf(lg, "L %s", line);
    fflush(lg);
    rewind(r);
    strcpy(all, "");
    while(fgets(rl, sizeof rl, r)){
      unsigned int q = strtoul(rl, NULL, 10);
      if(q == 0) strcpy(all, rl);
      if(q == strtoul(line, NULL, 10)) break;
      rl[0] = 0;
    }
    if(rl[0] == 0) strcpy(rl, all);
    if(sscanf(rl, "%*u %d %d %d %d %d %2047s %255s", &st, &s1, &s2, &cut, &delay, path, name) < 5) st = 1;
    if(st == -9) _exit(0);
    if(delay){ struct timespec t = {delay / 1000, (delay % 1000) * 1000000L}; nanosleep(&t, NULL); }
    if(path[0] == '@' && (o = 0, sscanf(line, "%*u %*d %*d %*d %*d %*s %2047s", path) == 1))	/* the product itself */
      sprintf(name + strlen(name), "%lu", strtoul(line, NULL, 10));
    if(strcmp(path, "-") == 0) path[0] = 0;
    if(strcmp(name, "-") == 0) name[0] = 0;
    b[o++] = st;
    if(st == 0){
      s1 += strlen(path);
      s2 += strlen(name);
      b[o++] = s1 >> 8; b[o++] = s1; b[o++] = s2 >> 8; b[o++] = s2;
      for(i = 0; path[i]; ++i) b[o++] = path[i];
      for(i = 0; name[i]; ++i) b[o++] = name[i];
    }
    o -= cut;
    fd = open(fifo, O_WRONLY);
    if(fd == -1) break;
    if(o > 0 && write(fd, b, o) != o) break;
    close(fd);
  }
  fprintf(lg, "end\n");
  fclose(lg);
  return 0;
}

__attribute__((constructor)) static void emwin_ctor(int argc, char **argv, char **envp){
  if(argc >= 4 && strcmp(argv[1], "--emwin") == 0) _exit(emwin_main(argv[2], argv[3]));
}

#define MAXC 12
#define MAXS 16
static struct cli {
  int used, fd, autor, rcvbuf, paused, quit;
  char ip[20];
  unsigned char ident[600];
  size_t identn;
  unsigned char *b[MAXS];	/* one buffer per connection */
  size_t n[MAXS], cap[MAXS];
  int eof[MAXS];		/* 0 open, 1 end of stream, 2 reset, 3 closed by us */
  int nc;			/* connections so far */
  pthread_t t;
} C[MAXC];
static pthread_mutex_t cm = PTHREAD_MUTEX_INITIALIZER;
static char srvip[20];
static int srvport;

static int dial(struct cli *c){
  struct sockaddr_in a = {0};
  int fd = socket(AF_INET, SOCK_STREAM|SOCK_CLOEXEC, 0), one = 1, i;
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = inet_addr(c->ip);
  if(c->rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &c->rcvbuf, sizeof c->rcvbuf);
  setsockopt(fd, IPPROTO_IP, 24 /* IP_BIND_ADDRESS_NO_PORT */, &one, sizeof one);
  if(bind(fd, (void*)&a, sizeof a)){ close(fd); return -1; }
  a.sin_addr.s_addr = inet_addr(srvip);
  a.sin_port = htons(srvport);
  for(i = 0; connect(fd, (void*)&a, sizeof a); ++i){
    if(i > 4000){ close(fd); return -1; }
    msleep(1);
  }
  setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  if(c->identn) (void)!write(fd, c->ident, c->identn);
  return fd;
}

static void newconn(struct cli *c, int fd){
  c->fd = fd;
  c->b[c->nc] = malloc(65536);
  c->cap[c->nc] = 65536;
  c->n[c->nc] = 0;
  c->eof[c->nc] = 0;
  ++c->nc;
}

static void *cli_main(void *a){
  struct cli *c = a;
  unsigned char t[65536];
  while(!c->quit){
    struct pollfd p = {c->fd, POLLIN, 0};
    ssize_t n;
    if(c->paused || c->fd == -1){ msleep(1); continue; }
    if(poll(&p, 1, 5) <= 0) continue;
    pthread_mutex_lock(&cm);
    if(c->paused || c->fd == -1 || c->fd != p.fd){ pthread_mutex_unlock(&cm); continue; }
    n = recv(c->fd, t, sizeof t, MSG_DONTWAIT);
    if(n == -1 && (errno == EAGAIN || errno == EINTR)){ pthread_mutex_unlock(&cm); continue; }
    if(n <= 0){
      c->eof[c->nc-1] = n == 0 ? 1 : 2;
      close(c->fd);
      c->fd = -1;
      if(c->autor && c->nc < MAXS && !c->quit){
	int fd = dial(c);
	if(fd != -1) newconn(c, fd);
      }
      pthread_mutex_unlock(&cm);
      continue;
    }
    {
      int k = c->nc - 1;
      while(c->n[k] + n > c->cap[k]) c->b[k] = realloc(c->b[k], c->cap[k] *= 2);
      memcpy(c->b[k] + c->n[k], t, n);
      c->n[k] += n;
    }
    pthread_mutex_unlock(&cm);
  }
  return NULL;
}

/* client k ip hexident auto rcvbuf */
static void op_client(int argc, char **argv){
  struct cli *c = &C[num(argv[1])];
  unsigned char *p;
  int fd;
  snprintf(c->ip, sizeof c->ip, "%s", argv[2]);
  p = unhex(argv[3], &c->identn);
  memcpy(c->ident, p, c->identn);
  free(p);
  c->autor = num(argv[4]);
  c->rcvbuf = num(argv[5]);
  fd = dial(c);
  if(fd == -1) die("client cannot connect");
  pthread_mutex_lock(&cm);
  newconn(c, fd);
  pthread_mutex_unlock(&cm);
  if(!c->used){
    c->used = 1;
    pthread_create(&c->t, NULL, cli_main, c);
  }
}

/* say k hex */
static void op_say(int argc, char **argv){
  size_t n;
  unsigned char *p = unhex(argv[2], &n);
  pthread_mutex_lock(&cm);
  if(C[num(argv[1])].fd != -1) (void)!send(C[num(argv[1])].fd, p, n, MSG_NOSIGNAL);
  pthread_mutex_unlock(&cm);
  free(p);
}

static void op_pause(int argc, char **argv){
  pthread_mutex_lock(&cm);
  C[num(argv[1])].paused = 1;
  pthread_mutex_unlock(&cm);
}
static void op_resume(int argc, char **argv){ C[num(argv[1])].paused = 0; }

/* bye k rst: closes */
static void op_bye(int argc, char **argv){
  struct cli *c = &C[num(argv[1])];
  pthread_mutex_lock(&cm);
  if(c->fd != -1){
    struct linger l = {1, 0};
    if(num(argv[2])) setsockopt(c->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    close(c->fd);
    c->fd = -1;
    c->eof[c->nc-1] = 3;
  }
  pthread_mutex_unlock(&cm);
}

/* closed k ms: waits for the server to close the connection */
static void op_closed(int argc, char **argv){
  struct cli *c = &C[num(argv[1])];
  double t0 = mono();
  int r;
  for(;;){
    pthread_mutex_lock(&cm);
    r = c->nc ? c->eof[c->nc-1] : 0;
    pthread_mutex_unlock(&cm);
    if(r || mono() - t0 > num(argv[2])) break;
    msleep(1);
  }
  out("closed %s %d", argv[1], r);
}

static size_t total(struct cli *c){
  size_t t = 0;
  int i;
  for(i = 0; i < c->nc; ++i) t += c->n[i];
  return t;
}

static void op_total(int argc, char **argv){ out("total %s %zu", argv[1], total(&C[num(argv[1])])); }

/* a product whose sequence number is patched */
static unsigned char *probe_frame;
static size_t probe_n, probe_off;
static unsigned int probe_seq;
static int probe_ch;

/* probe ch hexframe seqoffset seq: the products used to learn when a client is served */
static void op_probe(int argc, char **argv){
  probe_ch = num(argv[1]);
  probe_frame = unhex(argv[2], &probe_n);
  probe_off = num(argv[3]);
  probe_seq = num(argv[4]);
}

static void probe1(void){
  unsigned char *p = probe_frame + probe_off;
  p[0] = probe_seq >> 24; p[1] = probe_seq >> 16; p[2] = probe_seq >> 8; p[3] = probe_seq;
  if(feed(probe_ch, probe_frame, probe_n) != 0) die("probe frame");
  out("probe %u", probe_seq);
  ++probe_seq;
}

/* ready ms k..: announces probes until each client receives something on its connection */
static void op_ready(int argc, char **argv){
  double t0 = mono();
  int i, left;
  size_t n0[MAXC];
  for(i = 2; i < argc; ++i){
    struct cli *c = &C[num(argv[i])];
    n0[i-2] = c->n[c->nc-1];
  }
  for(;;){
    left = 0;
    pthread_mutex_lock(&cm);
    for(i = 2; i < argc; ++i){
      struct cli *c = &C[num(argv[i])];
      if(c->n[c->nc-1] == n0[i-2]) ++left;
    }
    pthread_mutex_unlock(&cm);
    if(left == 0 || mono() - t0 > num(argv[1])) break;
    probe1();
    msleep(left == 0 ? 0 : mono() - t0 < 150 ? 6 : 40);
  }
  out("ready %d", left);
}

/* until k hexpattern ms: in the last connection */
static void op_until(int argc, char **argv){
  struct cli *c = &C[num(argv[1])];
  size_t n;
  unsigned char *p = unhex(argv[2], &n);
  double t0 = mono();
  int r = 0;
  for(;;){
    pthread_mutex_lock(&cm);
    if(c->nc) r = memmem(c->b[c->nc-1], c->n[c->nc-1], p, n) != NULL;
    pthread_mutex_unlock(&cm);
    if(r || mono() - t0 > num(argv[3])) break;
    msleep(1);
  }
  out("until %s %d", argv[1], r);
  free(p);
}

/* dump: everything received */
static void op_dump(int argc, char **argv){
  int i, j;
  pthread_mutex_lock(&cm);
  for(i = 0; i < MAXC; ++i)
    for(j = 0; j < C[i].nc; ++j){
      char *h = hexof(C[i].b[j], C[i].n[j]);
      out("cs %d %d %d %s", i, j, C[i].eof[j], h);
      free(h);
    }
  pthread_mutex_unlock(&cm);
}

static void op_srvstart(int argc, char **argv){
  struct sockaddr_in a = {0};
  socklen_t n = sizeof a;
  int fd, one = 1, st;
  static char port[16];
  signal(SIGPIPE, SIG_IGN);
  /* an address and a port of its own */
  snprintf(srvip, sizeof srvip, "127.%d.%d.%d", 64 + (getpid() >> 16 & 63), getpid() >> 8 & 255, getpid() & 255);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = inet_addr(srvip);
  fd = socket(AF_INET, SOCK_STREAM, 0);
  setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  if(bind(fd, (void*)&a, sizeof a) || getsockname(fd, (void*)&a, &n)) die("bind %s", srvip);
  srvport = ntohs(a.sin_port);
  close(fd);
  sprintf(port, "%d", srvport);
  g.servername = srvip;
  g.serverport = port;
  st = start_common();
  if(st == 0) st = spawn_server();
  for(one = 0; st == 0 && *(volatile int*)&g.server_fd == -1 && one < 5000 && !get_quit_flag(); ++one) msleep(1);
  if(st == 0 && get_quit_flag()) st = 77;
  out("start %d", st);
}

/* srvstop ms: must end by itself */
static void *stopper(void *a){
  set_quit_flag();
  kill_server_thread();
  *(volatile int*)a = 1;
  return NULL;
}
static void op_srvstop(int argc, char **argv){
  static volatile int done;
  pthread_t t;
  double t0 = mono();
  pthread_create(&t, NULL, stopper, (void*)&done);
  while(!done && mono() - t0 < num(argv[1])) msleep(1);
  out("srvstop %d", done);
}

/* fds: open descriptors that are regular files of the spool, and sockets */
static void countfds(int *pf, int *ps){
  int i, f = 0, s = 0;
  for(i = 0; i < 256; ++i){
    struct stat st;
    if(fstat(i, &st)) continue;
    if(S_ISREG(st.st_mode)){
      char l[64], r[4096];
      ssize_t k;
      sprintf(l, "/proc/self/fd/%d", i);
      k = readlink(l, r, sizeof r - 1);
      if(k > 0){ r[k] = 0; if(strncmp(r, g.spooldir, strlen(g.spooldir)) == 0) ++f; }
    }
    if(S_ISSOCK(st.st_mode)) ++s;
  }
  *pf = f;
  *ps = s;
}

/* a file that is being stored may be open for a moment */
static void op_fds(int argc, char **argv){
  double t0 = mono();
  int f, s;
  for(;;){
    countfds(&f, &s);
    if(f == 0 || mono() - t0 > 500) break;
    msleep(1);
  }
  out("fds %d %d", f, s);
}

/* gone ms n: waits until the process holds n sockets */
static void op_gone(int argc, char **argv){
  double t0 = mono();
  int i, s;
  for(;;){
    for(s = 0, i = 0; i < 256; ++i){
      struct stat st;
      if(fstat(i, &st) == 0 && S_ISSOCK(st.st_mode)) ++s;
    }
    if(s == num(argv[2]) || mono() - t0 > num(argv[1])) break;
    msleep(1);
  }
  out("gone %d", s);
}

static void op_reload(int argc, char **argv){ set_reload_server_filters_flag(); }

static void op_state(int argc, char **argv){ set_server_state_flag(); }

static int flog(const char *pat){
  char lf[4096], l[8192], *p;
  int n = 0;
  FILE *f;
  snprintf(lf, sizeof lf, "%s", strstr(g.emwinfilter, "--emwin ") + 8);
  p = lf + strlen(lf);
  snprintf(p, sizeof lf - (p - lf), ".log");
  f = fopen(lf, "r");
  while(f && fgets(l, sizeof l, f)) if(strncmp(l, pat, strlen(pat)) == 0) ++n;
  if(f) fclose(f);
  return n;
}

/* flog hexpattern count ms: waits until the log of the emwin filter has so many lines that start with the pattern */
static void op_flog(int argc, char **argv){
  char *pat = unhexstr(argv[1]);
  double t0 = mono();
  int ok;
  while(!(ok = flog(pat) >= num(argv[2])) && mono() - t0 < num(argv[3])) msleep(1);
  out("flog %d", ok);
  free(pat);
}

/* reloadwait ms: until the filter has been started again */
static void op_reloadwait(int argc, char **argv){
  double t0 = mono();
  int n = flog("open"), ok;
  set_reload_server_filters_flag();
  while(!(ok = flog("open") > n) && mono() - t0 < num(argv[1])) msleep(1);
  out("reloaded %d", ok);
}

/* mv hexfrom hexto */
static void op_mv(int argc, char **argv){
  char *a = unhexstr(argv[1]), *b = unhexstr(argv[2]);
  if(rename(a, b)) die("rename %s", a);
  free(a);
  free(b);
}

/* exists hexpath ms */
static void op_exists(int argc, char **argv){
  char *a = unhexstr(argv[1]);
  double t0 = mono();
  int ok;
  while(!(ok = access(a, F_OK) == 0) && mono() - t0 < num(argv[2])) msleep(1);
  out("exists %d", ok);
  free(a);
}

/* socks ms: until every connection that is open has both its ends, and no other */
static void op_socks(int argc, char **argv){
  double t0 = mono();
  int i, s, n;
  for(;;){
    n = 1;
    pthread_mutex_lock(&cm);
    for(i = 0; i < MAXC; ++i) n += C[i].nc && C[i].fd != -1 ? 2 : 0;
    /* the table of the server has each of them */
    if(2 * conn_table_get_netclients(g.ct) + 1 != n) n = -1;
    for(s = 0, i = 0; i < 256; ++i){
      struct stat st;
      if(fstat(i, &st) == 0 && S_ISSOCK(st.st_mode)) ++s;
    }
    pthread_mutex_unlock(&cm);
    if(s == n || mono() - t0 > num(argv[1])) break;
    msleep(1);
  }
  out("socks %d", s == n);
}

/* opts ip: the options that the thread of a client was given */
static void op_opts(int argc, char **argv){
  int i = conn_table_find_element_byip(g.ct, argv[1]);
  struct conn_element_st *c = i < 0 ? NULL : &g.ct->ce[i];
  if(c == NULL){ out("opts none"); return; }
  out("opts %d %d %d %d %d", conn_element_get_write_timeout_ms(c), conn_element_get_write_timeout_retry(c),
      conn_element_get_reconnect_wait_sleep_secs(c), conn_element_get_reconnect_wait_sleep_retry(c),
      conn_element_get_queue_read_timeout_ms(c));
}
