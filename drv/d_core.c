/*
 * The receive pipeline of nbspd in one process: frames go in through the
 * frame processor, the real processor thread stores and announces products,
 * and the driver drains the filter and server queues.
 */
#include <db.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include "globals.h"
#include "init.h"
#include "err.h"
#include "signal.h"
#include "sbn.h"
#include "framep.h"
#include "nbsp.h"
#include "nbspq.h"
#include "nbspre.h"
#include "rtxdb.h"
#include "nbspmspoolbdb.h"
#include "spooltype.h"
#include "stats.h"
#include "const.h"
#include "nreadn.h"
#include "slave.h"
#include "drvrt.h"
#include <sanitizer/asan_interface.h>

static struct sbn_frame gframe[NPCAST_NUM_CHANNELS];
static char *pkt;
static int nofeeds(void){ return 0; }
static int (*drv_feeds)(void) = nofeeds;
static size_t pktsize;

#define S(n) {#n, NULL, NULL, &g.n}
#define I(n) {#n, (int*)&g.n, NULL, NULL}
static struct { const char *name; int *i; time_t *t; char **s; } gtab[] = {
  S(spooldir), S(dbhome), S(spooldb_fname), S(missinglogfile), S(rtxlogfile), S(statusfile),
  S(patt_accept), S(filterq_patt_accept), S(serverq_patt_accept), S(nbs1_patt_accept),
  S(nbs2_patt_accept), S(emwin_patt_accept), S(savez_patt_accept), S(rtxdb_patt_accept),
  S(pctl_dbfname), S(pctlmf_dbfname), S(qdb_dbfname), S(rtxdb_dbfname), S(cspoolbdb_dir), S(mspoolbdb_panicfile),
  I(spooltype), I(spoolsavefmt), I(spooldb_slots), I(rtxdb_slots), I(rtxdb_default_process),
  I(pctl_maxsize_soft), I(pctl_maxsize_hard), I(pctl_maxmem_soft), I(pctl_maxmem_hard),
  I(queue_maxsize_soft), I(queue_maxsize_hard), I(pctl_read_timeout_ms), I(queue_read_timeout_ms),
  I(dbcache_mb), I(dbextent_size), I(memfile_blocksize), I(memfile_minsize),
  I(mspoolbdb_dbcache_mb), I(mspoolbdb_ndb), I(mspoolbdb_nslots), I(mspoolbdb_maxsize_per128),
  I(f_loadave_max_rtx), I(f_verbose), I(feedmode),
  S(masterservers), S(slave_masterport), S(infifo), S(infifo_grp), S(slavestatsfile),
  I(infifo_mode), I(slave_read_timeout_secs), I(slave_read_timeout_retry), I(slave_reopen_timeout_secs),
  I(slave_so_rcvbuf), I(slave_stats_logperiod_secs), I(slave_reject_duplicates),
#ifdef D_EXTRA_SETTINGS
  D_EXTRA_SETTINGS
#endif
  {NULL, NULL, NULL, NULL}
};

void drv_child_init(void){
  init_globals();
  init_readn(get_quit_flag);
}

/* set name value */
static void op_set(int argc, char **argv){
  int i;
  for(i = 0; gtab[i].name; ++i){
    if(strcmp(gtab[i].name, argv[1]) == 0){
      if(gtab[i].i) *gtab[i].i = num(argv[2]);
      else *gtab[i].s = strcmp(argv[2], "-") == 0 ? NULL : unhexstr(argv[2]);
      return;
    }
  }
  die("no setting %s", argv[1]);
}

static int start_common(void){
  int st;
  set_log_verbose(g.f_verbose);
  st = init_nbsp_regex();
  out("regex %d", st);
  if(st == 0) st = init_directories();
  if(st == 0) st = (*drv_feeds)();
  if(st == 0) st = init_mspool();
  if(st == 0) st = init_queues();
  g.f_filter_thread_created = 1;	/* the queues accept packets */
  g.f_server_thread_created = 1;
  if(st == 0) st = spawn_nbsproc();
  pktsize = const_fpath_packet_maxsize();
  pkt = malloc(pktsize);
  return st;
}

static void op_start(int argc, char **argv){ out("start %d", start_common()); }

static int feed(int ch, const unsigned char *p, size_t n){
  struct sbn_frame *f = &gframe[ch];
  if(n > sizeof(f->rawdata)) die("frame too large");
  memcpy(f->rawdata, p, n);
  f->rawdata_size = n;
  f->np_channel_index = ch;
  return sbnframeproc(f);
}

/* frame ch hex */
static void op_frame(int argc, char **argv){
  size_t n;
  unsigned char *p = unhex(argv[2], &n);
  int r = feed(num(argv[1]), p, n);
  out("f %d", r);
  free(p);
}

/* threads ch1 nframes hex... ch2 nframes hex... : one reader thread per channel */
struct thr { pthread_t t; int ch, n; char **v; int *st; pthread_barrier_t *b; };
static void *thr_main(void *a){
  struct thr *t = a;
  int i;
  pthread_barrier_wait(t->b);
  for(i = 0; i < t->n; ++i){
    size_t n;
    unsigned char *p = unhex(t->v[i], &n);
    t->st[i] = feed(t->ch, p, n);
    free(p);
  }
  return NULL;
}
static void op_threads(int argc, char **argv){
  struct thr t[NPCAST_NUM_CHANNELS];
  int nt = 0, i = 1, j;
  pthread_barrier_t b;
  while(i < argc){
    t[nt].ch = num(argv[i]);
    t[nt].n = num(argv[i+1]);
    t[nt].v = &argv[i+2];
    t[nt].st = calloc(t[nt].n + 1, sizeof(int));
    t[nt].b = &b;
    i += 2 + t[nt].n;
    ++nt;
  }
  pthread_barrier_init(&b, NULL, nt);
  for(i = 0; i < nt; ++i) pthread_create(&t[i].t, NULL, thr_main, &t[i]);
  for(i = 0; i < nt; ++i) pthread_join(t[i].t, NULL);
  for(i = 0; i < nt; ++i)
    for(j = 0; j < t[i].n; ++j) out("tf %d %d %d", t[i].ch, j, t[i].st[j]);
}

static int rcv(int q, const char *tag){
  size_t n = pktsize;
  void *v = pkt;
  int r = q == 0 ? e_nbspq_rcv_filter(&v, &n) : e_nbspq_rcv_server(&v, &n);
  if(r == 0) outhex(tag, v, n);
  return r;
}

/* drain ch hexframe seq: feeds a sentinel product and takes the announcements up to it */
static void op_drain(int argc, char **argv){
  size_t n;
  unsigned char *p = unhex(argv[2], &n);
  unsigned int seq = num(argv[3]);
  int r = feed(num(argv[1]), p, n);
  double t0 = now();
  free(p);
  if(r != 0){ out("drainfail frame %d", r); return; }
  for(;;){
    r = rcv(0, "fq");
    if(r == 0){
      unsigned char *d = (unsigned char*)pkt + 12;
      unsigned int s = ((unsigned)d[0] << 24) | (d[1] << 16) | (d[2] << 8) | d[3];
      if(s == seq) break;
    }
    if(now() - t0 > 40){ out("drainfail timeout"); return; }
    if(get_quit_flag()){ out("drainfail quit"); return; }
  }
  while(nbspqt_n(g.qtable, SERVER_Q_INDEX) > 0)
    if(rcv(1, "sq") != 0){ out("drainfail server"); return; }
  out("drained %u", seq);
}

static void op_stop(int argc, char **argv){
  set_quit_flag();
  kill_processor_thread();
  kill_pctl();
  e_nbsp_rtxdb_close();
  kill_nbspq();
  /* the environment is left to the process exit, as after a kill */
  out("stopped");
}

static void op_rtxtruncate(int argc, char **argv){ out("rtxtrunc %d", e_nbsp_rtxdb_truncate()); }

/* as the main thread asks for it; the processor does it before its next product */
static void op_rtxflag(int argc, char **argv){ set_rtxdb_truncate_flag(); out("rtxflag"); }

static void op_stats(int argc, char **argv){
  struct nbsp_stats_st *s = &g.nbspstats;
  out("stats %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u", s->frames_processed, s->frames_jumps,
      s->frames_bad, s->frames_received, s->frames_data_size, s->products_transmitted, s->products_retransmitted,
      s->products_retransmitted_c, s->products_retransmitted_p, s->products_retransmitted_i,
      s->products_retransmitted_r, s->products_completed, s->products_missed, s->products_bad,
      s->products_aborted);
}

static void op_report(int argc, char **argv){ nbspstats_report(g.statusfile); out("reported"); }

static void op_period(int argc, char **argv){ nbspstats_update(); out("period"); }

/* mread hexfpath chunk */
static void op_mread(int argc, char **argv){
  char *fp = unhexstr(argv[1]);
  size_t chunk = num(argv[2]), n, o = 0, tot;
  int sd = nbsp_mspoolbdb_open(fp);
  unsigned char *b;
  if(sd < 0){ out("mread - %d", sd); return; }
  tot = nbsp_mspoolbdb_datasize(sd);
  b = malloc(tot + 1);
  while(o < tot){
    size_t want = chunk < tot - o ? chunk : tot - o;
    n = nbsp_mspoolbdb_read(sd, b + o, want);
    if(n == 0 || n == (size_t)-1) break;
    o += n;
  }
  nbsp_mspoolbdb_close(sd);
  {
    char *h = hexof(b, o);
    out("mread %s %zu", h, tot);
    free(h);
  }
  free(b);
}

/* unpack hexframe : the frame parser alone; bytes past the frame are poisoned */
static void op_unpack(int argc, char **argv){
  struct sbn_frame *f = &gframe[0];
  size_t n;
  unsigned char *p = unhex(argv[1], &n);
  int r;
  memcpy(f->rawdata, p, n);
  free(p);
  f->rawdata_size = n;
  f->np_channel_index = 0;
  ASAN_POISON_MEMORY_REGION(f->rawdata + n, sizeof(f->rawdata) - n);
  r = sbn_unpack_frame(f);
  out("u %d %d %d %d %u %d %u %d %d %d %d %d %d %u %d", r,
      f->fh.sbn_command, f->fh.sbn_datstream, f->fh.sbn_version, f->fh.sbn_seq_number,
      f->pdh.block_number, f->pdh.product_seq_number, f->pdh.transfer_type,
      f->psh.transfer_status_flag, f->psh.product_type, f->psh.product_category, f->psh.product_code,
      f->psh.num_fragments, f->psh.orig_seq_number, f->f_frdata_compressed);
  if(r == 0 && f->fh.sbn_command == SBN_COMMAND_DATA_TRANSFER){
    outhex("ctrlhdr", f->ctrlhdr ? f->ctrlhdr : "", f->ctrlhdr ? f->ctrlhdr_size : 0);
    if(f->frdata_size < 0) out("frdata negative");
    else outhex("frdata", f->frdata, f->frdata_size);
    if(f->pdh.block_number == 0){
      char id[WMO_ID_SIZE + 1], sta[WMO_STATION_SIZE + 1], tm[WMO_TIME_SIZE + 1];
      char aw[WMO_AWIPS_SIZE + 1], na[WMO_NOTAWIPS_SIZE + 1];
      int w;
      w = split_wmo_header(f, id, sta, tm, aw, na);
      out("ccb %d %d", f->ccb != NULL, f->ccb_size);
      if(w != 0) out("wmo %d", w);
      else{
	char *a1 = hexof(id, strlen(id)), *a2 = hexof(sta, strlen(sta)), *a3 = hexof(tm, strlen(tm)),
	  *a4 = hexof(aw, strlen(aw)), *a5 = hexof(na, strlen(na));
	out("wmo 0 %s %s %s %s %s", a1, a2, a3, a4, a5);
	free(a1); free(a2); free(a3); free(a4); free(a5);
      }
    }
  }
  ASAN_UNPOISON_MEMORY_REGION(f->rawdata, sizeof(f->rawdata));
}

static void op_sleep(int argc, char **argv){ msleep(num(argv[1])); }

struct drv_op drv_ops[] = {
  {"set", op_set}, {"start", op_start}, {"frame", op_frame}, {"threads", op_threads},
  {"drain", op_drain}, {"stop", op_stop}, {"stats", op_stats}, {"report", op_report},
  {"period", op_period}, {"mread", op_mread}, {"unpack", op_unpack}, {"rtxtruncate", op_rtxtruncate}, {"rtxflag", op_rtxflag}, {"sleep", op_sleep},
#ifdef D_EXTRA_OPS
  D_EXTRA_OPS
#endif
  {NULL, NULL}
};
