/*
 * The slave side of nbspd: the real slave threads read from scripted master
 * servers (TCP over the loopback network) or from the input fifo.
 */
#define _GNU_SOURCE
#include "drvrt.h"
#include <pthread.h>
static void op_listen(int, char **), op_slaves(int, char **), op_serve(int, char **), op_netstart(int, char **),
  op_served(int, char **), op_take(int, char **), op_fifo(int, char **), op_conf(int, char **), op_take_until(int, char **);
#define D_EXTRA_OPS \
  {"listen", op_listen}, {"slaves", op_slaves}, {"serve", op_serve}, {"netstart", op_netstart}, {"served", op_served}, \
  {"take", op_take}, {"fifo", op_fifo}, {"conf", op_conf}, {"takeuntil", op_take_until},
#include "d_core.c"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <signal.h>
#include "slavet.h"

#define MAXL 4
static struct lis {
  int fd, port, held;		/* held: the accepted connection the next script starts with */
  char ip[32];
  char ident[16];
  pthread_t t;
  int argc, failed;
  char **argv;
} L[MAXL];
static int nl;

static int feeds(void){ return init_slavet(); }

/* listen ip */
static void op_listen(int argc, char **argv){
  struct sockaddr_in a = {0};
  socklen_t n = sizeof a;
  int one = 1;
  signal(SIGPIPE, SIG_IGN);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = inet_addr(argv[1]);
  L[nl].fd = socket(AF_INET, SOCK_STREAM|SOCK_CLOEXEC, 0);
  setsockopt(L[nl].fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  if(bind(L[nl].fd, (void*)&a, sizeof a) || listen(L[nl].fd, 8) || getsockname(L[nl].fd, (void*)&a, &n)) die("listen %s", argv[1]);
  L[nl].port = ntohs(a.sin_port);
  L[nl].held = -1;
  snprintf(L[nl].ip, sizeof L[nl].ip, "%s", argv[1]);
  ++nl;
}

/* slaves hexconf: the masterservers setting; @k stands for "ip,port" of listener k */
static void op_slaves(int argc, char **argv){
  char *s = unhexstr(argv[1]), *r = malloc(strlen(s) * 40 + 1), *q = r;
  for(; *s; ++s){
    if(*s == '@') q += sprintf(q, "%s,%d", L[s[1]-'0'].ip, L[s[1]-'0'].port), ++s;
    else *q++ = *s;
  }
  *q = 0;
  g.masterservers = r;
}

static void op_netstart(int argc, char **argv){
  int st;
  drv_feeds = feeds;
  st = start_common();
  if(st == 0) st = spawn_slave_threads();
  out("start %d", st);
}

static int waitfd(int fd, int ev, int ms){
  struct pollfd p = {fd, ev, 0};
  int r;
  do r = poll(&p, 1, ms); while(r == -1 && errno == EINTR);
  return r == 1 ? p.revents : 0;
}

static int take_conn(struct lis *l){
  int fd, n, o = 0;
  if(l->held != -1){ fd = l->held; l->held = -1; return fd; }
  if(!waitfd(l->fd, POLLIN, 20000)) return -1;
  fd = accept4(l->fd, NULL, NULL, SOCK_CLOEXEC);
  if(fd == -1) return -1;
  while(o < 4 && waitfd(fd, POLLIN, 10000) && (n = read(fd, l->ident + o, 4 - o)) > 0) o += n;
  l->ident[o] = 0;
  n = 1;
  setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &n, sizeof n);
  return fd;
}

/* connections, each "c" followed by segments: x<hex> to write, d<ms> to wait */
static void *serve_main(void *a){
  struct lis *l = a;
  int i = 0;
  char b[4096];
  while(i < l->argc){
    int fd = take_conn(l), ok = 1;
    if(fd == -1){ l->failed = 1; return NULL; }
    for(++i; i < l->argc && strcmp(l->argv[i], "c"); ++i){
      if(l->argv[i][0] == 'd') msleep(num(l->argv[i] + 1));
      else if(ok){
	size_t n, o = 0;
	unsigned char *p = unhex(l->argv[i], &n);
	while(ok && o < n){
	  ssize_t k = write(fd, p + o, n - o);
	  if(k <= 0) ok = 0;
	  else o += k;
	}
	free(p);
      }
    }
    shutdown(fd, SHUT_WR);
    while(waitfd(fd, POLLIN, 20000) && read(fd, b, sizeof b) > 0);
    close(fd);
  }
  /* the slave has read everything when it connects again */
  l->held = take_conn(l);
  if(l->held == -1) l->failed = 1;
  return NULL;
}

/* serve k c seg.. c seg.. */
static void op_serve(int argc, char **argv){
  struct lis *l = &L[num(argv[1])];
  int i;
  l->argc = argc - 2;
  l->argv = calloc(argc, sizeof(char*));
  for(i = 2; i < argc; ++i) l->argv[i-2] = argv[i];
  l->failed = 0;
  pthread_create(&l->t, NULL, serve_main, l);
}

/* served k: waits for the script and for the slave to have connected again */
static void op_served(int argc, char **argv){
  struct lis *l = &L[num(argv[1])];
  pthread_join(l->t, NULL);
  out("served %s %d %s", argv[1], l->failed, l->ident);
}

/* take: the announcements that are queued */
static void op_take(int argc, char **argv){
  while(nbspqt_n(g.qtable, FILTER_Q_INDEX) > 0)
    if(rcv(0, "fq") != 0){ out("drainfail filter"); return; }
  while(nbspqt_n(g.qtable, SERVER_Q_INDEX) > 0)
    if(rcv(1, "sq") != 0){ out("drainfail server"); return; }
}

/* takeuntil seq */
static void op_take_until(int argc, char **argv){
  unsigned int seq = num(argv[1]);
  double t0 = now();
  for(;;){
    if(rcv(0, "fq") == 0){
      unsigned char *d = (unsigned char*)pkt + 12;
      if((((unsigned)d[0] << 24) | (d[1] << 16) | (d[2] << 8) | d[3]) == seq) break;
    }
    if(now() - t0 > 20){ out("drainfail timeout"); return; }
    if(get_quit_flag()){ out("drainfail quit"); return; }
  }
  while(nbspqt_n(g.qtable, SERVER_Q_INDEX) > 0)
    if(rcv(1, "sq") != 0){ out("drainfail server"); return; }
  out("drained %u", seq);
}

/* fifo hexpath closes seg..: writes to the fifo; if closes, waits until its reader closed it and made a new one */
static void op_fifo(int argc, char **argv){
  char *path = unhexstr(argv[1]);
  int closes = num(argv[2]), i, fd = -1, ok = 1;
  double t0 = now();
  struct stat st;
  ino_t ino;
  signal(SIGPIPE, SIG_IGN);
  while((fd = open(path, O_WRONLY|O_NONBLOCK|O_CLOEXEC)) == -1){
    if(now() - t0 > 20){ out("fifo absent"); return; }
    msleep(1);
  }
  fcntl(fd, F_SETFL, 0);
  if(fstat(fd, &st) || !S_ISFIFO(st.st_mode)){ out("fifo type"); return; }
  ino = st.st_ino;
  for(i = 3; i < argc; ++i){
    if(argv[i][0] == 'd') msleep(num(argv[i] + 1));
    else if(ok){
      size_t n, o = 0;
      unsigned char *p = unhex(argv[i], &n);
      while(ok && o < n){
	ssize_t k = write(fd, p + o, n - o);
	if(k <= 0) ok = 0;
	else o += k;
      }
      free(p);
    }
  }
  if(closes){
    int k, e = 0;
    for(k = 0; k < 2000 && !(e & POLLERR); ++k) e = waitfd(fd, 0, 10);
    if(!(e & POLLERR)) out("fifo notclosed");
    close(fd);
    for(t0 = now(); stat(path, &st) || st.st_ino == ino; msleep(1))
      if(now() - t0 > 20){ out("fifo notreopened"); return; }
    /* reopened for reading */
    while((fd = open(path, O_WRONLY|O_NONBLOCK|O_CLOEXEC)) == -1 && now() - t0 < 20) msleep(1);
    if(fd != -1) fstat(fd, &st);
  }
  if(fd != -1) close(fd);
  out("fifo %d %o", ok, (int)st.st_mode);
}

static void conf1(int i, struct slave_element_st *s){
  char *a = hexof(s->mastername ? s->mastername : "", s->mastername ? strlen(s->mastername) : 0);
  char *b = hexof(s->masterport ? s->masterport : "", s->masterport ? strlen(s->masterport) : 0);
  char *c = hexof(s->infifo ? s->infifo : "", s->infifo ? strlen(s->infifo) : 0);
  out("slave %d %d %s %s %s %d %d %d %d %d", i, s->slavetype, a, b, c, s->options.slave_read_timeout_secs,
      s->options.slave_read_timeout_retry, s->options.slave_reopen_timeout_secs, s->options.slave_so_rcvbuf,
      s->options.slave_stats_logperiod_secs);
}

/* conf: initialises the table of slaves and prints it */
static void op_conf(int argc, char **argv){
  int st = init_slavet(), i;
  out("conf %d", st);
  if(st == 0){
    out("table %d %d", g.slavet->numslaves, g.slavet->num_slavenbs_readers);
    for(i = 0; i < g.slavet->numslaves; ++i) conf1(i, &g.slavet->slave[i]);
    cleanup_slavet();
  }
}
