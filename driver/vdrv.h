/* Common harness for the conformance drivers.
 *
 * A driver reads commands (one per line) from a script file and writes one JSON event per
 * public call to the log.  Lines "ep <id>" start an episode; each episode runs in a forked
 * child so that a crash, abort, exit or hang of the code under test is itself recorded as an
 * event ("crash"/"exit"/"hang") which no action of the specification allows.
 *
 *   driver SCRIPT LOG [seconds per episode]
 */
#ifndef VDRV_H
#define VDRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <limits.h>
#include <fcntl.h>
#include <math.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>

static FILE *vlog;
static char *vbuf; static size_t vlen, vcap;

static void vput(const char *fmt, ...) {
  va_list ap; int k;
  for (;;) {
    if (vcap - vlen < 256) { vcap = vcap ? vcap * 2 : 65536; vbuf = realloc(vbuf, vcap); }
    va_start(ap, fmt); k = vsnprintf(vbuf + vlen, vcap - vlen, fmt, ap); va_end(ap);
    if (k < (int)(vcap - vlen)) { vlen += k; return; }
    vcap *= 2; vbuf = realloc(vbuf, vcap);
  }
}
static void vreset(void) { vlen = 0; if (vbuf) vbuf[0] = 0; }
static void vflush(void) { /* one event per line, written at once */
  vput("\n"); fwrite(vbuf, 1, vlen, vlog); fflush(vlog); vreset();
}
static void vstr(const char *s) { /* JSON string */
  vput("\"");
  for (; s && *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') vput("\\%c", c);
    else if (c < 32 || c > 126) vput("\\u%04x", c);
    else vput("%c", c);
  }
  vput("\"");
}

/* tokens of the current command */
static char *tok[100000]; static int ntok;
static long ti(int i) { return i < ntok ? strtol(tok[i], NULL, 10) : 0; }
static double td(int i) { return i < ntok ? strtod(tok[i], NULL) : 0; }
static char *tmpdir_path;
static int script_line;

/* %xx decoding, in place: one token of a script can carry any text */
static char *pct(char *s) {
  char *o = s, *r = s;
  for (; *r; r++) {
    if (*r == '%' && r[1] && r[2]) { char h[3] = {r[1], r[2], 0}; *o++ = (char)strtol(h, NULL, 16); r += 2; }
    else *o++ = *r;
  }
  *o = 0;
  return s;
}
static char *slurp(const char *path) {
  FILE *f = fopen(path, "rb"); if (!f) return strdup("");
  fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
  char *b = malloc(n + 1); size_t g = fread(b, 1, n, f); b[g] = 0; fclose(f);
  return b;
}
/* the whitespace separated tokens of a text, as a JSON array of lines of tokens; line structure kept */
static void put_tokens(const char *text) {
  vput("[");
  const char *p = text; int firstline = 1;
  while (*p) {
    const char *e = strchr(p, '\n'); size_t n = e ? (size_t)(e - p) : strlen(p);
    char *line = strndup(p, n), *sv = NULL; int first = 1;
    vput("%s[", firstline ? "" : ","); firstline = 0;
    for (char *t = strtok_r(line, " \t\r", &sv); t; t = strtok_r(NULL, " \t\r", &sv)) { vput("%s", first ? "" : ","); vstr(t); first = 0; }
    vput("]");
    free(line);
    if (!e) break;
    p = e + 1;
  }
  vput("]");
}

static void run_command(void);          /* provided by the driver */
static void episode_reset(void);        /* provided by the driver */

static void tokenize(char *line) {
  ntok = 0;
  for (char *p = strtok(line, " \t\n"); p && ntok < 100000; p = strtok(NULL, " \t\n")) tok[ntok++] = p;
}

static char **vlines; static int nvlines;

static void child(int a, int b, int secs) {
  alarm(secs);
  for (int i = a; i < b; i++) {
    char *copy = strdup(vlines[i]);
    script_line = i;
    tokenize(copy);
    if (ntok == 0) { free(copy); continue; }
    vreset();
    run_command();
    free(copy);
  }
  fflush(NULL);
  _exit(0);
}

static void no_core(void) {}

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT LOG [secs]\n"); return 2; }
  int secs = argc > 3 ? atoi(argv[3]) : 20;
  FILE *f = fopen(argv[1], "r");
  if (!f) { perror(argv[1]); return 2; }
  size_t cap = 0; char *line = NULL;
  while (getline(&line, &cap, f) > 0) {
    vlines = realloc(vlines, sizeof(char *) * (nvlines + 1));
    vlines[nvlines++] = strdup(line);
  }
  fclose(f);
  vlog = fopen(argv[2], "a");
  if (!vlog) { perror(argv[2]); return 2; }
  no_core();
  char tmpl[] = "/tmp/vdrvXXXXXX";
  tmpdir_path = strdup(mkdtemp(tmpl));
  if (chdir(tmpdir_path)) { perror("chdir"); return 2; }
  int i = 0;
  while (i < nvlines) {
    int j = i + 1;
    while (j < nvlines && strncmp(vlines[j], "ep ", 3)) j++;
    char id[64] = "0"; sscanf(vlines[i], "ep %63s", id);
    vreset(); vput("{\"op\":\"reset\",\"ep\":\"%s\"}", id); vflush();
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      episode_reset();
      child(strncmp(vlines[i], "ep ", 3) ? i : i + 1, j, secs);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    fseek(vlog, 0, SEEK_END);
    if (WIFSIGNALED(st)) {
      vreset();
      vput("{\"op\":\"%s\",\"ep\":\"%s\",\"sig\":%d}", WTERMSIG(st) == SIGALRM ? "hang" : "crash", id, WTERMSIG(st));
      vflush();
    } else if (WEXITSTATUS(st) != 0) {
      vreset();
      vput("{\"op\":\"crash\",\"ep\":\"%s\",\"code\":%d}", id, WEXITSTATUS(st));
      vflush();
    }
    i = j;
  }
  fclose(vlog);
  /* remove our scratch directory (files we made there only) */
  chdir("/");
  char cmd[256]; snprintf(cmd, sizeof cmd, "rm -rf -- '%s'", tmpdir_path);
  if (!strncmp(tmpdir_path, "/tmp/vdrv", 9)) { int rc = system(cmd); (void)rc; }
  return 0;
}
#endif
