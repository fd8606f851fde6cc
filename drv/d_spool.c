/*
 * The spool bookkeeping (spooldb) and the memory spool (libspoolbdb).
 */
#include <db.h>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include "spooldb.h"
#include "libspoolbdb/mspoolbdb.h"
#include "drvrt.h"

void drv_child_init(void){}

/* ------------------------------------------------ spooldb */
static struct spooldb_st *sd;
static int failnext = 0;

static int destroy_key(char *key){
  if(key[0] == '\0') return 0;
  {
    char *h = hexof(key, strlen(key));
    out("del %s", h);
    free(h);
  }
  return 0;
}

static void op_sdinit(int argc, char **argv){
  sd = spooldb_init(num(argv[1]), num(argv[2]), destroy_key);
  out("sdinit %d", sd != NULL);
}
static void op_sdins(int argc, char **argv){
  int i;
  for(i = 1; i < argc; ++i){
    char *k = unhexstr(argv[i]);
    int r = spooldb_insert(sd, k);
    out("ins %d %u", r, spooldb_get_slot(sd));
    free(k);
  }
}
static void op_sdwrite(int argc, char **argv){
  char *f = unhexstr(argv[1]);
  out("sdwrite %d", spooldb_write(sd, f, 0644));
}
static void op_sdread(int argc, char **argv){
  char *f = unhexstr(argv[1]);
  int r = spooldb_read(sd, f);
  out("sdread %d", r);
  if(r != 0){ spooldb_destroy(sd); sd = NULL; }
}
static void op_sdfree(int argc, char **argv){ spooldb_destroy(sd); sd = NULL; out("sdfree"); }
static void op_trunc(int argc, char **argv){
  char *f = unhexstr(argv[1]);
  struct stat st;
  long long n = num(argv[2]);
  stat(f, &st);
  if(n < 0) n = st.st_size + n;
  if(n < 0) n = 0;
  out("trunc %d %lld", truncate(f, n), (long long)st.st_size);
}

/* ------------------------------------------------ memory spool */
static struct mspoolbdb_st *ms;

/* mscreate dbhome|- cache_mb per128 ndb nslots */
static void op_mscreate(int argc, char **argv){
  char *h = argv[1][0] == '-' ? NULL : unhexstr(argv[1]);
  int r = mspoolbdb_create(&ms, h, h ? 0644 : 0, num(argv[2]), num(argv[3]), num(argv[4]), num(argv[5]));
  out("mscreate %d", r);
}
static int hnd[64];
/* the content of a product is a function of its tag and size */
static unsigned char *content(unsigned tag, size_t n){
  unsigned char *p = malloc(n + 1);
  size_t i;
  uint32_t x = tag * 2654435761u + 12345;
  for(i = 0; i < n; ++i){ x = x * 1664525u + 1013904223u; p[i] = x >> 24; }
  return p;
}
static int matches(unsigned tag, const unsigned char *p, size_t n){
  unsigned char *q = content(tag, n);
  int r = memcmp(p, q, n) == 0;
  free(q);
  return r;
}
/* msins key tag size */
static void op_msins(int argc, char **argv){
  size_t n = num(argv[3]);
  unsigned char *p = content(num(argv[2]), n);
  int r = mspoolbdb_insert(ms, argv[1], p, n);
  out("msins %d", r == 0 ? 0 : r == ENOMEM ? 1 : 2);
  free(p);
}
/* msopen handle key */
static void op_msopen(int argc, char **argv){
  int sdd = -1;
  int r = mspoolbdb_slots_open(ms, argv[2], &sdd);
  if(r == 0){
    hnd[num(argv[1])] = sdd;
    out("msopen 0 %zu", mspoolbdb_slots_datasize(ms, sdd));
  }else out("msopen %d 0", r == DB_NOTFOUND ? -2 : -1);
}
/* msread sd n tag off : n bytes, compared with the content of tag from off */
static void op_msread(int argc, char **argv){
  size_t want = num(argv[2]), off = num(argv[4]), n;
  unsigned char *b = malloc(want), *q;
  n = mspoolbdb_slots_read(ms, hnd[num(argv[1])], b, want);
  if(n > want){ out("msread %zu 0", n); return; }
  q = content(num(argv[3]), off + n);
  out("msread %zu %d", n, memcmp(b, q + off, n) == 0);
  free(b);
  free(q);
}
static void op_msclose(int argc, char **argv){ out("msclose %d", mspoolbdb_slots_close(ms, hnd[num(argv[1])])); }
static void op_mstrunc(int argc, char **argv){ out("mstrunc %d", mspoolbdb_truncate(ms)); }
static void op_mstruncold(int argc, char **argv){ out("mstruncold %d", mspoolbdb_truncate_oldest(ms)); }
static void op_msdestroy(int argc, char **argv){ out("msdestroy %d", mspoolbdb_destroy(ms)); ms = NULL; }

/*
 * msthreads nwriters nreaders nkeys size rounds chunk
 * Key k is stored by writer k % nwriters (tag k, size + 37 * k bytes); readers open random keys in
 * any state and what they read must be exactly that product.
 */
static int nw, nr, nk, rounds;
static size_t bsize, chunk;
static volatile int bad, opened, notfound, stored;
static pthread_barrier_t bar;
static void *writer(void *a){
  int w = (long)a, k;
  pthread_barrier_wait(&bar);
  for(k = w; k < nk; k += nw){
    char key[16];
    size_t n = bsize + 37 * k;
    unsigned char *p = content(k, n);
    snprintf(key, sizeof(key), "%d", 1000 + k);
    if(mspoolbdb_insert(ms, key, p, n) == 0) __sync_fetch_and_add(&stored, 1);
    free(p);
    if(k % 3 == 0) usleep(100);
  }
  return NULL;
}
static void *reader(void *a){
  unsigned x = (long)a * 7919 + 1;
  int i;
  pthread_barrier_wait(&bar);
  for(i = 0; i < rounds; ++i){
    char key[16];
    int k, s = -1, r;
    x = x * 1664525u + 1013904223u;
    k = (x >> 16) % nk;
    snprintf(key, sizeof(key), "%d", 1000 + k);
    r = mspoolbdb_slots_open(ms, key, &s);
    if(r == DB_NOTFOUND){ __sync_fetch_and_add(&notfound, 1); continue; }
    if(r != 0){ __sync_fetch_and_add(&bad, 1); continue; }
    __sync_fetch_and_add(&opened, 1);
    {
      size_t tot = mspoolbdb_slots_datasize(ms, s), o = 0, n;
      unsigned char *b = malloc(tot + 1);
      while(o < tot){
	n = mspoolbdb_slots_read(ms, s, b + o, chunk < tot - o ? chunk : tot - o);
	if(n == 0 || n > tot - o) break;
	o += n;
	if(x % 7 == 0) usleep(20);
      }
      if(o != tot || tot != bsize + 37 * k || !matches(k, b, tot)) __sync_fetch_and_add(&bad, 1);
      free(b);
    }
    if(mspoolbdb_slots_close(ms, s) != 0) __sync_fetch_and_add(&bad, 1);
  }
  return NULL;
}
static void op_msthreads(int argc, char **argv){
  pthread_t t[32];
  int i;
  nw = num(argv[1]); nr = num(argv[2]); nk = num(argv[3]); bsize = num(argv[4]); rounds = num(argv[5]);
  chunk = num(argv[6]);
  pthread_barrier_init(&bar, NULL, nw + nr);
  for(i = 0; i < nw; ++i) pthread_create(&t[i], NULL, writer, (void*)(long)i);
  for(i = 0; i < nr; ++i) pthread_create(&t[nw + i], NULL, reader, (void*)(long)i);
  for(i = 0; i < nw + nr; ++i) pthread_join(t[i], NULL);
  out("msthreads %d %d %d %d", bad, opened, notfound, stored);
}

struct drv_op drv_ops[] = {
  {"sdinit", op_sdinit}, {"sdins", op_sdins}, {"sdwrite", op_sdwrite}, {"sdread", op_sdread}, {"sdfree", op_sdfree},
  {"trunc", op_trunc}, {"mscreate", op_mscreate}, {"msins", op_msins}, {"msopen", op_msopen}, {"msread", op_msread},
  {"msclose", op_msclose}, {"mstrunc", op_mstrunc}, {"mstruncold", op_mstruncold}, {"msdestroy", op_msdestroy},
  {"msthreads", op_msthreads}, {NULL, NULL}
};
