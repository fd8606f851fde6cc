/*
 * Fork server: reads requests on fd 0, runs each in a forked child whose
 * working directory is the scratch directory named in the request, and
 * answers on fd 1 with how the child ended.
 *
 * request: u32 timeout_ms, u32 dirlen, dir, u32 proglen, program (text)
 * answer:  i32 kind (0 exited, 1 signalled, 2 timed out), i32 code
 *
 * A program is a list of lines, each "op arg arg ..."; binary arguments are
 * hex. Results go to <dir>/out, the log of the code under test to <dir>/err.
 */
#define _GNU_SOURCE
#include "drvrt.h"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/prctl.h>

static FILE *fout;

void out(const char *fmt, ...){
  va_list ap;
  va_start(ap, fmt);
  vfprintf(fout, fmt, ap);
  va_end(ap);
  fputc('\n', fout);
  fflush(fout);
}

char *hexof(const void *p, size_t n){
  static const char d[] = "0123456789abcdef";
  const unsigned char *c = p;
  char *r = malloc(2 * n + 2);
  size_t i;
  r[0] = 'x';
  for(i = 0; i < n; ++i){
    r[1 + 2*i] = d[c[i] >> 4];
    r[2 + 2*i] = d[c[i] & 15];
  }
  r[1 + 2*n] = 0;
  return r;
}

void outhex(const char *tag, const void *p, size_t n){
  char *h = hexof(p, n);
  out("%s %s", tag, h);
  free(h);
}

static int hv(int c){
  if(c >= '0' && c <= '9') return c - '0';
  if(c >= 'a' && c <= 'f') return c - 'a' + 10;
  return -1;
}

unsigned char *unhex(const char *s, size_t *n){
  size_t len = strlen(s), i;
  unsigned char *r;
  if(s[0] != 'x') die("not hex: %.20s", s);
  ++s; --len;
  *n = len/2;
  r = malloc(*n ? *n : 1);
  for(i = 0; i < *n; ++i)
    r[i] = (hv(s[2*i]) << 4) | hv(s[2*i + 1]);
  return r;
}

char *unhexstr(const char *s){
  size_t n;
  unsigned char *p = unhex(s, &n);
  char *r = malloc(n + 1);
  memcpy(r, p, n);
  r[n] = 0;
  free(p);
  return r;
}

long long num(const char *s){ return strtoll(s, NULL, 0); }

void die(const char *fmt, ...){
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "DRIVER-ERROR: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  fflush(stderr);
  _exit(77);
}

unsigned char *slurp(const char *path, size_t *n){
  int fd = open(path, O_RDONLY);
  struct stat st;
  unsigned char *p;
  ssize_t k; size_t o = 0;
  if(fd == -1) return NULL;
  fstat(fd, &st);
  p = malloc(st.st_size + 1);
  while(o < (size_t)st.st_size && (k = read(fd, p + o, st.st_size - o)) > 0) o += k;
  close(fd);
  *n = o;
  return p;
}

void msleep(int ms){
  struct timespec t = {ms/1000, (ms % 1000)*1000000L};
  nanosleep(&t, NULL);
}

double now(void){
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec/1e9;
}

static int readall(int fd, void *b, size_t n){
  char *p = b;
  while(n > 0){
    ssize_t k = read(fd, p, n);
    if(k == -1 && errno == EINTR) continue;
    if(k <= 0) return -1;
    p += k; n -= k;
  }
  return 0;
}

static void run_program(char *prog){
  char *line, *next;
  char **argv = NULL;
  int maxargs = 0;

  for(line = prog; line && *line; line = next){
    int argc = 0;
    char *p = line;
    struct drv_op *op;
    next = strchr(line, '\n');
    if(next) *next++ = 0;
    for(;;){
      while(*p == ' ') ++p;
      if(!*p) break;
      if(argc + 1 >= maxargs){
	maxargs = maxargs ? 2*maxargs : 16;
	argv = realloc(argv, maxargs * sizeof(char*));
      }
      argv[argc++] = p;
      while(*p && *p != ' ') ++p;
      if(*p) *p++ = 0;
    }
    if(argc == 0) continue;
    argv[argc] = NULL;
    for(op = drv_ops; op->name; ++op)
      if(strcmp(op->name, argv[0]) == 0) break;
    if(!op->name) die("unknown op %s", argv[0]);
    op->fn(argc, argv);
    fflush(fout);
  }
  out("END");
}

static void child(char *dir, char *prog){
  int fd, devnull;
  setpgid(0, 0);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  umask(022);
  if(chdir(dir) != 0) _exit(78);
  devnull = open("/dev/null", O_RDONLY);
  fd = open("err", O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644);
  dup2(devnull, 0); close(devnull);
  fflush(stdout);
  dup2(fd, 2); dup2(fd, 1); close(fd);
  fout = fopen("out", "we");
  if(!fout) _exit(78);
  drv_child_init();
  run_program(prog);
  fflush(NULL);
  _exit(0);
}

int main(void){
  uint32_t tmo, dl, pl;
  char *dir, *prog;
  int ansfd = dup(1);

  fcntl(ansfd, F_SETFD, FD_CLOEXEC);
  signal(SIGPIPE, SIG_DFL);
  while(readall(0, &tmo, 4) == 0){
    pid_t pid;
    int st, ans[2] = {0, 0};
    if(readall(0, &dl, 4)) break;
    dir = malloc(dl + 1);
    if(readall(0, dir, dl)) break;
    dir[dl] = 0;
    if(readall(0, &pl, 4)) break;
    prog = malloc(pl + 1);
    if(readall(0, prog, pl)) break;
    prog[pl] = 0;

    pid = fork();
    if(pid == 0){
      close(ansfd);
      child(dir, prog);
    }
    setpgid(pid, pid);
    {
      int pfd = syscall(SYS_pidfd_open, pid, 0);
      struct pollfd pf = {pfd, POLLIN, 0};
      int r;
      do r = poll(&pf, 1, (int)tmo); while(r == -1 && errno == EINTR);
      if(r == 0){
	ans[0] = 2;
	kill(-pid, SIGKILL);
	kill(pid, SIGKILL);
      }
      if(pfd != -1) close(pfd);
    }
    while(waitpid(pid, &st, 0) == -1 && errno == EINTR);
    kill(-pid, SIGKILL);
    if(ans[0] == 0){
      if(WIFEXITED(st)) ans[1] = WEXITSTATUS(st);
      else { ans[0] = 1; ans[1] = WTERMSIG(st); }
    }
    free(dir); free(prog);
    if(write(ansfd, ans, 8) != 8) break;
  }
  return 0;
}
