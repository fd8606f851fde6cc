/* Stands in for a filter (or for ssh): records its arguments and the lines that it reads below $NBSP_REC.  A file
   die/<name>.<seq> tells how to end after the product with that sequence number. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static const char *base(const char *s) {
  const char *p = strrchr(s, '/');
  return p ? p + 1 : s;
}

int main(int argc, char **argv) {
  const char *rec = getenv("NBSP_REC");
  char name[300], path[700], line[4096], how[32];
  FILE *log, *f;
  int i, c, n;

  if (rec == NULL)
    return 3;
  snprintf(path, sizeof(path), "%s/log.%d", rec, (int)getpid());
  if ((log = fopen(path, "w")) == NULL)
    return 3;
  setvbuf(log, NULL, _IOLBF, 0);
  fprintf(log, "%s", base(argv[0]));
  for (i = 1; i < argc; i++)
    fprintf(log, " %s", argv[i]);
  fputc('\n', log);
  if (strcmp(base(argv[0]), "ssh") == 0 && argc > 2)
    snprintf(name, sizeof(name), "%.100s:%.100s", argv[argc - 2], base(argv[argc - 1]));
  else
    snprintf(name, sizeof(name), "%.200s", base(argv[0]));
  n = 0;
  /* one byte at a time, so that what was not processed stays in the pipe */
  while (read(0, line + n, 1) == 1) {
    c = line[n];
    if (c != '\n') {
      if (n < (int)sizeof(line) - 2)
        n++;
      continue;
    }
    line[n] = '\0';
    n = 0;
    fprintf(log, "%s\n", line);
    if (line[0] == '\0')
      continue;
    line[strcspn(line, " ")] = '\0';
    snprintf(path, sizeof(path), "%s/die/%s.%.40s", rec, name, line);
    if ((f = fopen(path, "r")) == NULL)
      continue;
    how[0] = '\0';
    if (fscanf(f, "%31s", how) != 1)
      how[0] = '\0';
    fclose(f);
    snprintf(path, sizeof(path), "%s/dead/%s.%.40s", rec, name, line);
    if ((f = fopen(path, "w")) != NULL) {
      fprintf(f, "%d\n", (int)getpid());
      fclose(f);
    }
    if (strcmp(how, "kill") == 0)
      kill(getpid(), SIGKILL);
    if (strcmp(how, "err") == 0) {
      fprintf(stderr, "ended by %s\n", line);
      return 1;
    }
    return 0;
  }
  fprintf(log, "EOF\n");
  return 0;
}
