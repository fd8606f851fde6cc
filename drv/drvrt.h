/* Fork-server runtime shared by the drivers: see drvrt.c */
#ifndef DRVRT_H
#define DRVRT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/types.h>

struct drv_op {
  const char *name;
  void (*fn)(int argc, char **argv);
};

extern struct drv_op drv_ops[];		/* each driver defines it; NULL name ends */
extern void drv_child_init(void);	/* each driver defines it */

/* result line "tag args" to the result file, flushed */
void out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void outhex(const char *tag, const void *p, size_t n);
/* decode a hex token into malloc'ed exact-size memory (ASan sees overreads) */
unsigned char *unhex(const char *s, size_t *n);
char *unhexstr(const char *s);		/* same, '\0' terminated */
char *hexof(const void *p, size_t n);
long long num(const char *s);
unsigned char *slurp(const char *path, size_t *n);
void die(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void msleep(int ms);
double now(void);
#endif
