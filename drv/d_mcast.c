/*
 * The pipeline of d_core fed by the real reader threads, from multicast groups on the loopback interface.
 * LDFLAGS: -Wl,--wrap=sbnframeproc
 */
#include <netinet/in.h>
static void op_feeds(int, char **), op_readers(int, char **), op_mcsend(int, char **), op_mcwait(int, char **),
  op_mcstop(int, char **), op_mclog(int, char **);
static int mc_feeds(void);
#define D_EXTRA_OPS \
  {"feeds", op_feeds}, {"readers", op_readers}, {"mcsend", op_mcsend}, {"mcwait", op_mcwait}, {"mcstop", op_mcstop}, \
  {"mclog", op_mclog},
#define D_EXTRA_SETTINGS \
  S(multicastip), S(multicastport), S(ifname), S(ifip), I(udprcvsize), I(broadcast_read_timeout_secs),
#include "d_core.c"
#include <sys/socket.h>
#include <arpa/inet.h>
#include <errno.h>
#include "reader.h"
#include "npcast.h"

/* the frames that the readers handed over, in the order of each channel */
#define MAXLOG 20000
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static struct { int ch; size_t n; char *d; } flog[MAXLOG];
static int nlog, ndone, nreaders;
static __thread int direct;
static int sent;

int __real_sbnframeproc(struct sbn_frame *f);
int __wrap_sbnframeproc(struct sbn_frame *f){
  int r, log = nreaders && !direct;
  if(log){
    pthread_mutex_lock(&mx);
    if(nlog < MAXLOG){
      flog[nlog].ch = f->np_channel_index;
      flog[nlog].n = f->rawdata_size;
      flog[nlog].d = memcpy(malloc(f->rawdata_size + 1), f->rawdata, f->rawdata_size);
      ++nlog;
    }
    pthread_mutex_unlock(&mx);
  }
  r = __real_sbnframeproc(f);
  if(log){
    pthread_mutex_lock(&mx);
    ++ndone;
    pthread_mutex_unlock(&mx);
  }
  return r;
}

static int done(void){
  int n;
  pthread_mutex_lock(&mx);
  n = ndone;
  pthread_mutex_unlock(&mx);
  return n;
}

static int mc_feeds(void){
  int st = init_feeds();
  out("feeds %d", st);
  return st;
}

/* feeds: opens the channels only */
static void op_feeds(int argc, char **argv){ mc_feeds(); if(get_npcast_numchannels() >= 0) np_close(); }

/* readers: starts everything */
static void op_readers(int argc, char **argv){
  int st;
  drv_feeds = mc_feeds;
  direct = 1;
  st = start_common();
  if(st == 0){ nreaders = 1; st = spawn_readers(); }
  out("start %d", st);
}

static int until(int n, int ms){
  double t0 = now();
  while(done() < n){
    if(now() - t0 > ms / 1000.0) return 0;
    usleep(100);
  }
  return 1;
}

/* mcsend ip port counts hex : one datagram; counts: whether a reader should see it */
static void op_mcsend(int argc, char **argv){
  static int fd = -1;
  struct sockaddr_in sa;
  struct in_addr lo;
  unsigned char ttl = 0;
  size_t n;
  unsigned char *p = unhex(argv[4], &n);
  memset(&sa, 0, sizeof sa);
  sa.sin_family = AF_INET;
  sa.sin_port = htons(num(argv[2]));
  inet_aton(argv[1], &sa.sin_addr);
  inet_aton("127.0.0.1", &lo);
  if(fd == -1){
    fd = socket(AF_INET, SOCK_DGRAM, 0);
    if(setsockopt(fd, IPPROTO_IP, IP_MULTICAST_IF, &lo, sizeof lo) || setsockopt(fd, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, 1))
      die("multicast on the loopback interface");
  }
  if(sendto(fd, p, n, 0, (struct sockaddr*)&sa, sizeof sa) != (ssize_t)n) die("sendto: %s", strerror(errno));
  free(p);
  if(num(argv[3])) ++sent;
  /* few enough that no socket loses any */
  { static int stuck = 0; if(!stuck) stuck = !until(sent - 8, 3000); }
}

/* mcwait ms : until the readers have dealt with what was sent */
static void op_mcwait(int argc, char **argv){ out("mcwait %d", until(sent, num(argv[1]))); }

static void op_mclog(int argc, char **argv){
  int i;
  for(i = 0; i < nlog; ++i){
    char *h = hexof(flog[i].d, flog[i].n);
    out("mcf %d %s", flog[i].ch, h);
    free(h);
  }
}

/* mcstop : ends the readers */
static void op_mcstop(int argc, char **argv){
  double t0 = now();
  set_quit_flag();
  kill_reader_threads();
  out("mcstop %d", now() - t0 < 8);
}
