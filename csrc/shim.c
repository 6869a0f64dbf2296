/* LD_PRELOAD shim: fixed clock, no sleeping, and fault / crash injection.
 *
 *  SHIM_TIME=<epoch>      time() returns this
 *  SHIM_FAIL=<n>          the n-th mutating call (1-based) and, with
 *                         SHIM_STICKY=1, every later one fails
 *  SHIM_KILL=<n>          the process dies (like SIGKILL) right before its
 *                         n-th mutating call
 *  SHIM_INT=<n>           the process gets SIGINT right before its n-th mutating call
 *  SHIM_PART=1            a failing fwrite writes half of the data (disk full)
 *  SHIM_COUNT=<file>      on exit the number of mutating calls is written there
 *
 *  SHIM_BUF=1             keep stdio buffering: then the buffered calls are not
 *                         counted and the flush in fclose is the one that fails
 *                         (what was buffered is lost)
 *
 *  SHIM_EVT=<file>        time (monotonic ns), pid and path of every file opened, renamed,
 *                         removed or made is appended there (not the log or the lock)
 *  SHIM_JIT=<seed>,<p>,<us>  before and after such calls wait up to <us> with p percent probability
 *
 * f->_flags |= 0x20 is what sets ferror().
 *
 * A mutating call is fopen for writing or updating, fwrite/fputs/fputc/fprintf (files are
 * made unbuffered, so each reaches the kernel), fclose of a file written to
 * (SHIM_BUF only), rename, remove, unlink and mkdir.  The log file ("log") does
 * not count.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static long nops, failat, killat, intat, sticky;
static int inited, faults, bufmode, part;
static FILE *logf_;
static long faketime_v = -1;
static char countfile[256], tracefile[256], evtfile[256];
static unsigned jseed, jp, jus;

static unsigned rnd_(void) { jseed = jseed * 1103515245u + 12345u; return (jseed >> 16) & 0x7fff; }

static void jitter(const char *path)
{
   size_t l = path ? strlen(path) : 0;
   unsigned p = jp;
   if (!jp) return;
   if (l >= 5 && strcmp(path + l - 5, ".busy") == 0) p = 70;
   if (rnd_() % 100 < p) usleep(1 + (rnd_() * 32768u + rnd_()) % jus);
}

static void evt(const char *path);

static void init(void)
{
   char *e;
   if (inited) return;
   inited = 1;
   if ((e = getenv("SHIM_TIME"))) faketime_v = atol(e);
   if ((e = getenv("SHIM_FAIL"))) failat = atol(e);
   if ((e = getenv("SHIM_KILL"))) killat = atol(e);
   if ((e = getenv("SHIM_INT"))) intat = atol(e);
   if ((e = getenv("SHIM_PART"))) part = atoi(e);
   if ((e = getenv("SHIM_STICKY"))) sticky = atol(e);
   if ((e = getenv("SHIM_BUF"))) bufmode = atoi(e);
   if ((e = getenv("SHIM_COUNT"))) { strncpy(countfile, e, 255); }
   if ((e = getenv("SHIM_EVT"))) { strncpy(evtfile, e, 255); }
   if ((e = getenv("SHIM_JIT"))) sscanf(e, "%u,%u,%u", &jseed, &jp, &jus);
   if ((e = getenv("SHIM_TRACE"))) { strncpy(tracefile, e, 255); }
   if (failat || killat || intat || countfile[0] || tracefile[0]) faults = 1;
   /* children (packers) must not inherit the fault plan */
   unsetenv("SHIM_FAIL"); unsetenv("SHIM_KILL"); unsetenv("SHIM_INT"); unsetenv("SHIM_COUNT"); unsetenv("SHIM_TRACE");
   unsetenv("SHIM_EVT"); unsetenv("SHIM_JIT");
}

__attribute__((constructor)) static void ctor(void) { init(); }

static void rawwrite(const char *f, int flags, const char *buf)
{
   static int (*r_open)(const char *, int, ...) ;
   int fd;
   if (!r_open) r_open = dlsym(RTLD_NEXT, "open");
   fd = r_open(f, flags, 0644);
   if (fd >= 0) { ssize_t x = write(fd, buf, strlen(buf)); (void)x; close(fd); }
}

static void evt(const char *path)
{
   struct timespec ts;
   char b[700];
   size_t l = strlen(path);
   if (!evtfile[0]) return;
   if (l >= 5 && strcmp(path + l - 5, ".busy") == 0) return;
   if (l >= 4 && strcmp(path + l - 4, "/log") == 0) return;
   clock_gettime(CLOCK_MONOTONIC, &ts);
   snprintf(b, 700, "%lld %d %s\n", ts.tv_sec * 1000000000ll + ts.tv_nsec, (int)getpid(), path);
   rawwrite(evtfile, O_WRONLY|O_CREAT|O_APPEND, b);
}

__attribute__((destructor)) static void dtor(void)
{
   if (countfile[0]) { char b[32]; sprintf(b, "%ld\n", nops); rawwrite(countfile, O_WRONLY|O_CREAT|O_TRUNC, b); }
}

/* returns 1 when the call must fail */
static int op(const char *what, const char *path)
{
   init();
   if (!faults) return 0;
   nops++;
   if (tracefile[0]) { char b[600]; snprintf(b, 600, "%ld %s %s\n", nops, what, path ? path : ""); rawwrite(tracefile, O_WRONLY|O_CREAT|O_APPEND, b); }
   if (killat && nops == killat) _exit(137);
   if (intat && nops == intat) raise(SIGINT);
   if (failat && (nops == failat || (sticky && nops > failat))) { errno = ENOSPC; return 1; }
   return 0;
}

time_t time(time_t *t)
{
   static time_t (*r)(time_t *);
   time_t v;
   init();
   if (faketime_v >= 0) v = faketime_v;
   else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
   (void)r;
   if (t) *t = v;
   return v;
}

unsigned int sleep(unsigned int s) { (void)s; usleep(1000); return 0; }

static FILE *fopen_(const char *path, const char *mode)
{
   static FILE *(*r)(const char *, const char *);
   FILE *f;
   if (!r) r = dlsym(RTLD_NEXT, "fopen");
   if (strpbrk(mode, "wa+"))
   {
      int isnew = mode[0] == 'w' || mode[0] == 'a';
      size_t l = strlen(path);
      if (l >= 4 && strcmp(path + l - 4, "/log") == 0) return logf_ = r(path, mode);
      if ((isnew || access(path, F_OK) == 0) && op("fopen", path)) return NULL;
      f = r(path, mode);
      /* unbuffered under fault injection: every fwrite is one crash point */
      if (f && faults && !bufmode) setvbuf(f, NULL, _IONBF, 0);
      return f;
   }
   return r(path, mode);
}

FILE *fopen(const char *path, const char *mode)
{
   FILE *f;
   init();
   jitter(path);
   f = fopen_(path, mode);
   if (f) { int e = errno; evt(path); errno = e; }
   { int e = errno; jitter(path); errno = e; }
   return f;
}

static int counts(FILE *f) { return f != stdout && f != stderr && f != logf_ && !bufmode; }

int fclose(FILE *f)
{
   static int (*r)(FILE *);
   if (!r) r = dlsym(RTLD_NEXT, "fclose");
   init();
   if (f == logf_) { logf_ = NULL; return r(f); }
   if (faults && bufmode && __fwriting(f) && __fpending(f) > 0 && op("fclose", NULL))
   {
      __fpurge(f);
      r(f);
      errno = ENOSPC;
      return EOF;
   }
   return r(f);
}

int fflush(FILE *f)
{
   static int (*r)(FILE *);
   if (!r) r = dlsym(RTLD_NEXT, "fflush");
   if (f && faults && bufmode && f != stdout && f != stderr && f != logf_ && __fwriting(f) && __fpending(f) > 0 && op("fflush", NULL))
   {
      __fpurge(f);
      f->_flags |= 0x20;
      errno = ENOSPC;
      return EOF;
   }
   return r(f);
}

size_t fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
   static size_t (*r)(const void *, size_t, size_t, FILE *);
   if (!r) r = dlsym(RTLD_NEXT, "fwrite");
   if (counts(f) && op("fwrite", NULL)) { size_t k = part && sz == 1 && n > 1 ? r(p, sz, n / 2, f) : 0; f->_flags |= 0x20; return k; }
   return r(p, sz, n, f);
}

int fputc(int c, FILE *f)
{
   static int (*r)(int, FILE *);
   if (!r) r = dlsym(RTLD_NEXT, "fputc");
   if (counts(f) && op("fputc", NULL)) { f->_flags |= 0x20; return EOF; }
   return r(c, f);
}

int fputs(const char *s, FILE *f)
{
   static int (*r)(const char *, FILE *);
   if (!r) r = dlsym(RTLD_NEXT, "fputs");
   if (counts(f) && op("fputs", NULL)) { f->_flags |= 0x20; return EOF; }
   return r(s, f);
}

int rename(const char *a, const char *b)
{
   static int (*r)(const char *, const char *);
   if (!r) r = dlsym(RTLD_NEXT, "rename");
   if (op("rename", b)) return -1;
   { int v, e; jitter(b); v = r(a, b); e = errno; if (v == 0) evt(b); jitter(b); errno = e; return v; }
}

int remove(const char *a)
{
   static int (*r)(const char *);
   if (!r) r = dlsym(RTLD_NEXT, "remove");
   if (op("remove", a)) return -1;
   { int v, e; jitter(a); v = r(a); e = errno; if (v == 0) evt(a); jitter(a); errno = e; return v; }
}

int unlink(const char *a)
{
   static int (*r)(const char *);
   if (!r) r = dlsym(RTLD_NEXT, "unlink");
   if (op("unlink", a)) return -1;
   { int v, e; jitter(a); v = r(a); e = errno; if (v == 0) evt(a); jitter(a); errno = e; return v; }
}

int mkdir(const char *a, mode_t m)
{
   static int (*r)(const char *, mode_t);
   if (!r) r = dlsym(RTLD_NEXT, "mkdir");
   if (op("mkdir", a)) return -1;
   { int v, e; jitter(a); v = r(a, m); e = errno; if (v == 0) evt(a); jitter(a); errno = e; return v; }
}

int vfprintf(FILE *f, const char *fmt, va_list ap)
{
   static int (*r)(FILE *, const char *, va_list);
   if (!r) r = dlsym(RTLD_NEXT, "vfprintf");
   if (counts(f) && op("vfprintf", NULL)) { f->_flags |= 0x20; return -1; }
   return r(f, fmt, ap);
}
