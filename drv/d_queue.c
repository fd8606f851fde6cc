/*
 * The queues: product control (pctl), announcement queues (libqdb), connection queues (libconnth/cq).
 */
#include <db.h>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include "pctl.h"
#include "const.h"
#include "globals.h"
#include "libqdb/qdb.h"
#include "libconnth/cq.h"
#include "drvrt.h"

void drv_child_init(void){ g.spooldir = "/var/noaaport/nbsp/spool"; }

static DB_ENV *env;

/* env dir|- mb */
static void op_env(int argc, char **argv){
  int r;
  if(argv[1][0] == '-') return;
  r = db_env_create(&env, 0);
  if(r == 0) r = env->set_cachesize(env, 0, num(argv[2]) << 20, 0);
  if(r == 0) r = env->open(env, unhexstr(argv[1]), DB_CREATE | DB_THREAD | DB_INIT_MPOOL, 0644);
  if(r != 0) die("env %d", r);
}
static void op_envclose(int argc, char **argv){
  if(env != NULL && env->close(env, 0) != 0) die("env close");
  env = NULL;
}

/* content: tag, size, then a function of both */
static void fill(unsigned char *p, size_t n, unsigned tag){
  size_t i;
  uint32_t x = tag * 2654435761u + 12345 + n;
  for(i = 0; i < n; ++i){ x = x * 1664525u + 1013904223u; p[i] = x >> 24; }
  if(n >= 8){ uint32_t s = n; memcpy(p, &tag, 4); memcpy(p + 4, &s, 4); }
}
/* -> 1 if the record of at most n bytes has the content its first 8 bytes promise */
static int check(unsigned char *p, size_t n, unsigned *tag, unsigned *size){
  unsigned char *q;
  int r;
  *tag = *size = 0;
  if(n < 8) return 0;
  memcpy(tag, p, 4);
  memcpy(size, p + 4, 4);
  if(*size > n || *size < 8) return 0;
  q = malloc(*size);
  fill(q, *size, *tag);
  r = memcmp(p, q, *size) == 0;
  free(q);
  return r;
}

/* ------------------------------------------------ tables of queues, connection queues */
static nbspqtable_t *qt[8];
static connqueue_t *cq[8];

/* qopen id num soft hard reclen cache file|- */
static void op_qopen(int argc, char **argv){
  struct qdb_param_st p;
  int e = 0, id = num(argv[1]);
  memset(&p, 0, sizeof(p));
  p.dbenv = env;
  p.dbname = argv[7][0] == '-' ? NULL : unhexstr(argv[7]);
  p.mode = 0644;
  p.extent_size = 4;
  p.reclen = num(argv[5]);
  p.cache_mb = num(argv[6]);
  qt[id] = nbspqt_open(num(argv[2]), num(argv[3]), num(argv[4]), &p, &e);
  out("qopen %d", qt[id] != NULL);
  if(qt[id] == NULL) exit(0);
}
static void op_qclose(int argc, char **argv){
  int e = 0;
  out("qclose %d", nbspqt_close(qt[num(argv[1])], &e));
}
/* cqopen id soft hard reclen cache */
static void op_cqopen(int argc, char **argv){
  struct connqueue_param_st p;
  int e = 0, id = num(argv[1]);
  p.softlimit = num(argv[2]);
  p.hardlimit = num(argv[3]);
  p.reclen = num(argv[4]);
  p.cache_mb = num(argv[5]);
  cq[id] = connqueue_open(&p, &e);
  out("qopen %d", cq[id] != NULL);
  if(cq[id] == NULL) exit(0);
}
static void op_cqclose(int argc, char **argv){
  int e = 0;
  out("qclose %d", connqueue_close(cq[num(argv[1])], &e));
}
static int snd(int c, int id, int type, unsigned tag, size_t n){
  unsigned char *p = malloc(n);
  int r, e = 0;
  fill(p, n, tag);
  r = c ? connqueue_snd(cq[id], p, n, &e) : nbspqt_snd(qt[id], type, p, n, &e);
  memset(p, 0xee, n);
  free(p);
  return r;
}
static int rcv(int c, int id, int type, int tmo, int reuse, unsigned *tag, unsigned *size, int *ok){
  void *d = NULL;
  uint32_t n = 0;
  int r, e = 0;
  *tag = *size = *ok = 0;
  if(c) r = connqueue_rcv(cq[id], &d, &n, tmo, &e);
  else{
    if(reuse){ n = qt[id]->reclen; d = malloc(n); }
    r = nbspqt_rcv(qt[id], type, &d, &n, tmo, &e);
  }
  if(r == 0) *ok = check(d, n, tag, size);
  if(!c && d != NULL) free(d);
  return r;
}
static uint32_t qn(int c, int id, int type){ return c ? connqueue_n(cq[id]) : nbspqt_n(qt[id], type); }
/* qsnd c id type tag size */
static void op_qsnd(int argc, char **argv){
  int c = num(argv[1]), id = num(argv[2]), t = num(argv[3]);
  int r = snd(c, id, t, num(argv[4]), num(argv[5]));
  out("qsnd %d %u", r, qn(c, id, t));
}
/* qrcv c id type timeout reuse -> status tag size ok n ms */
static void op_qrcv(int argc, char **argv){
  int c = num(argv[1]), id = num(argv[2]), t = num(argv[3]), ok;
  unsigned tag, size;
  double t0 = now();
  int r = rcv(c, id, t, num(argv[4]), num(argv[5]), &tag, &size, &ok);
  int ms = (now() - t0) * 1000;
  out("qrcv %d %u %u %d %u %d", r, tag, size, ok, qn(c, id, t), ms);
}
/* qflags c id type -> soft hard dberror */
static void op_qflags(int argc, char **argv){
  int c = num(argv[1]), id = num(argv[2]), t = num(argv[3]);
  if(c) out("qflags %d %d %d", connqueue_test_maxsoft_flag(cq[id]) != 0, connqueue_test_maxhard_flag(cq[id]) != 0,
	    connqueue_test_dberror_flag(cq[id]) != 0);
  else out("qflags %d %d %d", nbspqt_test_qdb_status_flag(qt[id], t, QDB_FSTATUS_MAX_SOFT) != 0,
	   nbspqt_test_qdb_status_flag(qt[id], t, QDB_FSTATUS_MAX_HARD) != 0,
	   nbspqt_test_qdb_status_flag(qt[id], t, QDB_FSTATUS_DBERROR) != 0);
}
/*
 * qthreads c id ntypes nprod ncons per size timeout pausemask
 * nprod producers send `per' records each to every type (retrying when the hard limit rejects); ncons consumers
 * per type read until all were read. -> total received, out of order, damaged, duplicated, errors, late
 */
static int tc, tid, tnt, tnp, tnc, tper, tsize, ttmo, tmask;
static volatile int got[8], bad, ooo, dupl, errs, rejected, empties;
static unsigned char *seen[8];
static void *prod(void *a){
  int w = (long)a, i, t, r;
  for(i = 0; i < tper; ++i)
    for(t = 0; t < tnt; ++t){
      for(;;){
	r = snd(tc, tid, t, w * 100000 + i, 8 + (w * 7 + i * 13) % (tsize - 7));
	if(r == 0 || r == 1) break;
	if(r != 2){ __sync_fetch_and_add(&errs, 1); break; }
	__sync_fetch_and_add(&rejected, 1);
	usleep(200);
      }
      if(((i * 31 + w * 17) & 63) < tmask) usleep(300);
    }
  return NULL;
}
static void *cons(void *a){
  int t = (long)a % 8, ok, r, w;
  int last[16];
  unsigned tag, size;
  double quiet = now();
  for(w = 0; w < 16; ++w) last[w] = -1;
  while(got[t] < tnp * tper){
    r = rcv(tc, tid, t, ttmo, 1, &tag, &size, &ok);
    if(r == 1){
      __sync_fetch_and_add(&empties, 1);
      if(now() - quiet > 12) break;
      continue;
    }
    if(r != 0){ __sync_fetch_and_add(&errs, 1); break; }
    quiet = now();
    if(!ok || tag / 100000 >= (unsigned)tnp || tag % 100000 >= (unsigned)tper){
      __sync_fetch_and_add(&bad, 1);
    }else{
      w = tag / 100000;
      if((int)(tag % 100000) <= last[w]) __sync_fetch_and_add(&ooo, 1);
      last[w] = tag % 100000;
      if(__sync_fetch_and_add(&seen[t][w * tper + tag % 100000], 1)) __sync_fetch_and_add(&dupl, 1);
      if(size != 8 + (w * 7 + (tag % 100000) * 13) % (tsize - 7)) __sync_fetch_and_add(&bad, 1);
    }
    __sync_fetch_and_add(&got[t], 1);
  }
  return NULL;
}
static void op_qthreads(int argc, char **argv){
  pthread_t th[64];
  int n = 0, t, i, tot = 0;
  double t0 = now();
  tc = num(argv[1]); tid = num(argv[2]); tnt = num(argv[3]); tnp = num(argv[4]); tnc = num(argv[5]); tper = num(argv[6]);
  tsize = num(argv[7]); ttmo = num(argv[8]); tmask = num(argv[9]);
  for(t = 0; t < tnt; ++t) seen[t] = calloc(tnp, tper);
  for(t = 0; t < tnt; ++t) for(i = 0; i < tnc; ++i) pthread_create(&th[n++], NULL, cons, (void*)(long)(t + 8 * i));
  for(i = 0; i < tnp; ++i) pthread_create(&th[n++], NULL, prod, (void*)(long)i);
  for(i = 0; i < n; ++i) pthread_join(th[i], NULL);
  for(t = 0; t < tnt; ++t) tot += got[t];
  out("qthreads %d %d %d %d %d %d", tot, ooo, bad, dupl, errs, (int)((now() - t0) * 1000));
}

/* qcycle c id type cycles per size: fills and empties the queue; -> first failing step, or -1 */
static void op_qcycle(int argc, char **argv){
  int c = num(argv[1]), id = num(argv[2]), t = num(argv[3]), cy = num(argv[4]), per = num(argv[5]), i, k, ok;
  size_t n = num(argv[6]);
  unsigned tag, size;
  for(i = 0; i < cy; ++i){
    for(k = 0; k < per; ++k)
      if(snd(c, id, t, i * 1000 + k, n) != 0){ out("qcycle %d %d", i, k); return; }
    for(k = 0; k < per; ++k)
      if(rcv(c, id, t, 1000, k % 2, &tag, &size, &ok) != 0 || !ok || tag != i * 1000 + k || size != n){ out("qcycle %d %d", i, -k - 1); return; }
  }
  out("qcycle -1 0");
}
/* qwake c id type delay_ms timeout: a record is sent while a reader waits -> status, record ok, ms */
static int wc, wid, wt, wdelay;
static void *waker(void *a){ msleep(wdelay); snd(wc, wid, wt, 4242, 8); return NULL; }
static void op_qwake(int argc, char **argv){
  pthread_t th;
  int r, ok;
  unsigned tag, size;
  double t0 = now();
  wc = num(argv[1]); wid = num(argv[2]); wt = num(argv[3]); wdelay = num(argv[4]);
  pthread_create(&th, NULL, waker, NULL);
  r = rcv(wc, wid, wt, num(argv[5]), 0, &tag, &size, &ok);
  out("qwake %d %d %d", r, r == 0 && ok && tag == 4242 && size == 8, (int)((now() - t0) * 1000));
  pthread_join(th, NULL);
}

/* ------------------------------------------------ product control */
static struct pctl_st *pc;

/* popen nch soft hard mfsoft mfhard minsize file|- */
static void op_popen(int argc, char **argv){
  struct pctldb_param_st p;
  memset(&p, 0, sizeof(p));
  p.dbenv = env;
  if(argv[7][0] != '-'){
    char *f = unhexstr(argv[7]);
    p.dbname = malloc(strlen(f) + 10);
    sprintf(p.dbname, "%s.db", f);
    p.mfdbname = malloc(strlen(f) + 10);
    sprintf(p.mfdbname, "%smf.db", f);
  }
  p.mode = 0644;
  p.extent_size = 4;
  p.reclen = const_pce_data_size();
  p.memfile_minsize = num(argv[6]);
  p.softlimit = num(argv[2]);
  p.hardlimit = num(argv[3]);
  p.mf_softlimit_mb = num(argv[4]);
  p.mf_hardlimit_mb = num(argv[5]);
  pc = epctl_open(num(argv[1]), &p);
  out("popen %d", pc != NULL);
  if(pc == NULL) exit(0);
}
static void op_pclose(int argc, char **argv){ epctl_close(pc); free(pc); pc = NULL; out("pclose"); }

static void setpce(struct pctl_element_st *e, unsigned tag, int nf, unsigned seq){
  e->f_complete = 0;
  e->num_fragments = nf;
  e->recv_fragments = 0;
  e->seq_number = seq;
  e->orig_seq_number = tag % 3 ? tag * 7 : 0;
  e->sbn_datstream = tag % 8;
  e->psh_product_type = tag % 11;
  e->psh_product_category = tag % 5;
  e->psh_product_code = tag % 13;
  e->np_channel_index = tag % 9;
  e->ts.tv_sec = tag;
  e->ts.tv_nsec = tag * 3;
  e->save_format = tag % 3;
  e->saveunz_flag = tag % 2;
  e->rtxdb_flag = (tag / 2) % 2;
  e->ctrlhdr_size = tag % 59;
  memset(e->ctrlhdr, 'a' + tag % 26, sizeof(e->ctrlhdr));
  e->f_has_ccb = (tag / 4) % 2;
  snprintf(e->wmo_id, sizeof(e->wmo_id), "%06u", tag % 1000000);
  snprintf(e->wmo_station, sizeof(e->wmo_station), "%c%c%c%c", 'A' + tag % 26, 'B', 'C', 'D');
  snprintf(e->wmo_time, sizeof(e->wmo_time), "%06u", (tag * 17) % 1000000);
  snprintf(e->wmo_awips, sizeof(e->wmo_awips), "A%05u", tag % 100000);
  snprintf(e->wmo_notawips, sizeof(e->wmo_notawips), "N%03u", tag % 1000);
  snprintf(e->fname, sizeof(e->fname), "f%u", tag);
  snprintf(e->fbasename, sizeof(e->fbasename), "b%u", tag);
  snprintf(e->fpath, e->fpath_size, "p/%u", tag);
}
static int samepce(struct pctl_element_st *a, unsigned tag){
  struct pctl_element_st *b = create_pce(100);
  int r;
  setpce(b, tag, a->num_fragments, a->seq_number);
#define E(x) (a->x == b->x)
#define M(x) (memcmp(a->x, b->x, sizeof(a->x)) == 0)
#define S(x) (strcmp(a->x, b->x) == 0)
  r = E(orig_seq_number) && E(sbn_datstream) && E(psh_product_type) && E(psh_product_category) && E(psh_product_code) &&
    E(np_channel_index) && E(ts.tv_sec) && E(ts.tv_nsec) && E(save_format) && E(saveunz_flag) && E(rtxdb_flag) &&
    E(ctrlhdr_size) && M(ctrlhdr) && E(f_has_ccb) && S(wmo_id) && S(wmo_station) && S(wmo_time) && S(wmo_awips) &&
    S(wmo_notawips) && S(fname) && S(fbasename) && S(fpath);
  destroy_pce(b);
  return r;
}
/* pbegin ch seq nfrag tag -> 1 opened, 0 unfinished product there; the caller sees isopen before and after */
static void op_pbegin(int argc, char **argv){
  int ch = num(argv[1]), o0 = pctl_activepce_isopen(pc, ch);
  struct pctl_element_st *e = open_pctl_activepce(pc, ch);
  if(e != NULL) setpce(e, num(argv[4]), num(argv[3]), num(argv[2]));
  out("pbegin %d %d %d", o0, e != NULL, pctl_activepce_isopen(pc, ch));
}
static int pframe(int ch, unsigned seq, int block, unsigned tag, size_t n, int fc){
  struct pctl_element_st *e;
  int r = update_activepce_framecounter(pc, ch, seq, block);
  if(r == 0){
    unsigned char *d = malloc(n + 1);
    e = get_pctl_activepce(pc, ch, seq);
    if(e == NULL) return 9;
    fill(d, n, tag);
    if(write_memframe(e->mf, (char*)d, n, fc) == -1) r = 8;
    free(d);
  }
  return r;
}
/* pframe ch seq block tag size compressed -> status of the frame counter */
static void op_pframe(int argc, char **argv){
  out("pframe %d", pframe(num(argv[1]), num(argv[2]), num(argv[3]), num(argv[4]), num(argv[5]), num(argv[6])));
}
/* pend ch seq -> completion status, queueing status (-9 none), elements waiting, bytes waiting */
static void op_pend(int argc, char **argv){
  int ch = num(argv[1]), c, s = -9;
  c = complete_activepce(pc, ch, num(argv[2]));
  if(c == 0) s = esend_pctl_activepce(pc, ch);
  if(c != 1) close_pctl_activepce(pc, ch);
  out("pend %d %d %u", c, s, pc->pctldb->n);
}
static void op_pabort(int argc, char **argv){ close_pctl_activepce(pc, num(argv[1])); out("pabort"); }
/* the received element: seq, tag, fields ok, frames: tag:size:compressed:ok ... */
static int rcvpce(int tmo, char *line, size_t max, unsigned *seq, unsigned *tag, int *ok, int *nfr){
  int st, n, fc, k = 0, o = 0;
  char *f;
  struct pctl_element_st *e = eopen_pctl_outputpce(pc, tmo, &st);
  if(e == NULL) return st;
  *seq = e->seq_number;
  *tag = e->ts.tv_sec;
  *ok = samepce(e, *tag) && e->f_complete == 1;
  while((n = get_memframe(e->mf, &f, &fc)) > 0){
    unsigned t, s;
    int good;
    unsigned char *c = malloc(n);	/* exact copy: overruns are seen */
    memcpy(c, f, n);
    good = check(c, n, &t, &s) && (int)s == n;
    free(c);
    if(!good) *ok = 0;
    if(line != NULL && o < (int)max - 60) o += sprintf(line + o, " %u:%u:%d:%d", t, s, fc, good);
    ++k;
  }
  if(n != 0) *ok = 0;
  *nfr = k;
  if(line != NULL) line[o] = '\0';
  close_pctl_outputpce(pc);
  return 0;
}
/* prcv timeout */
static void op_prcv(int argc, char **argv){
  char line[8192] = "";
  unsigned seq = 0, tag = 0;
  int ok = 0, nfr = 0, r;
  double t0 = now();
  r = rcvpce(num(argv[1]), line, sizeof(line), &seq, &tag, &ok, &nfr);
  out("prcv %d %u %u %d %d %u %d%s", r, seq, tag, ok, nfr, pc->pctldb->n, (int)((now() - t0) * 1000), line);
}
/*
 * pthreads nch per maxframes timeout mask: one reader thread per channel builds and queues products, the processor
 * thread takes them. -> received, out of order, damaged, duplicated, errors
 */
static int pnch, pper, pmaxf;
static void *preader(void *a){
  int ch = (long)a, i, k, nf, r;
  for(i = 0; i < pper; ++i){
    unsigned tag = ch * 10000 + i, seq = tag + 1;
    struct pctl_element_st *e = open_pctl_activepce(pc, ch);
    if(e == NULL){ __sync_fetch_and_add(&errs, 1); close_pctl_activepce(pc, ch); continue; }
    nf = 1 + (i * 7 + ch) % pmaxf;
    setpce(e, tag, nf, seq);
    for(k = 0; k < nf; ++k)
      if(pframe(ch, seq, k, tag * 10 + k, 8 + (tag * 37 + k * 411) % 4000, 0) != 0) __sync_fetch_and_add(&errs, 1);
    if(complete_activepce(pc, ch, seq) != 0) __sync_fetch_and_add(&errs, 1);
    for(;;){
      r = esend_pctl_activepce(pc, ch);
      if(r != 2) break;
      __sync_fetch_and_add(&rejected, 1);
      usleep(200);
    }
    if(r != 0) __sync_fetch_and_add(&errs, 1);
    close_pctl_activepce(pc, ch);
    if(((i * 31 + ch * 17) & 63) < tmask) usleep(300);
  }
  return NULL;
}
static void op_pthreads(int argc, char **argv){
  pthread_t th[16];
  int i, last[16], tot = 0, r, ok, nfr;
  unsigned seq, tag;
  double quiet = now();
  pnch = num(argv[1]); pper = num(argv[2]); pmaxf = num(argv[3]); ttmo = num(argv[4]); tmask = num(argv[5]);
  for(i = 0; i < 16; ++i) last[i] = -1;
  for(i = 0; i < pnch; ++i) pthread_create(&th[i], NULL, preader, (void*)(long)i);
  while(tot < pnch * pper){
    r = rcvpce(ttmo, NULL, 0, &seq, &tag, &ok, &nfr);
    if(r == 1){ if(now() - quiet > 12) break; continue; }
    if(r != 0){ ++errs; break; }
    quiet = now();
    ++tot;
    i = tag / 10000;
    if(!ok || i >= pnch || seq != tag + 1 || nfr != 1 + ((int)(tag % 10000) * 7 + i) % pmaxf){ ++bad; continue; }
    if((int)(tag % 10000) == last[i]) ++dupl;
    else if((int)(tag % 10000) != last[i] + 1) ++ooo;
    last[i] = tag % 10000;
  }
  for(i = 0; i < pnch; ++i) pthread_join(th[i], NULL);
  out("pthreads %d %d %d %d %d", tot, ooo, bad, dupl, errs);
}

struct drv_op drv_ops[] = {
  {"env", op_env}, {"envclose", op_envclose}, {"qopen", op_qopen}, {"qclose", op_qclose}, {"cqopen", op_cqopen},
  {"cqclose", op_cqclose}, {"qsnd", op_qsnd}, {"qrcv", op_qrcv}, {"qflags", op_qflags}, {"qthreads", op_qthreads}, {"qcycle", op_qcycle}, {"qwake", op_qwake},
  {"popen", op_popen}, {"pclose", op_pclose}, {"pbegin", op_pbegin}, {"pframe", op_pframe}, {"pend", op_pend},
  {"pabort", op_pabort}, {"prcv", op_prcv}, {"pthreads", op_pthreads}, {NULL, NULL}
};
