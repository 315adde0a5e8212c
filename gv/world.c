/* Preloaded: another world around the program.  Every variable of the environment that
   is asked for has a value (GV_WORLD), and clocks, process numbers, random numbers, the
   user and the directory are others.  Nothing of that is part of the source text. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static char *own(const char *name)
{
	size_t n = strlen(name);
	for (char **e = environ; e && *e; e++)
		if (!strncmp(*e, name, n) && (*e)[n] == '=')
			return *e + n + 1;
	return NULL;
}

/* what the C library and the compilers' libraries ask for stays as it is */
static int theirs(const char *name)
{
	static const char *const names[] = {"PATH", "HOME", "TMPDIR", "TMP", "TEMP", "TEMPDIR", "LANGUAGE", "LANG", "ARGP_HELP_FMT", "POSIXLY_CORRECT", NULL};
	for (int i = 0; names[i]; i++)
		if (!strcmp(names[i], name))
			return 1;
	return !strncmp(name, "LC_", 3) || !strncmp(name, "MALLOC_", 7) || !strncmp(name, "GLIBC_", 6) ||
	       !strncmp(name, "LD_", 3) || strstr(name, "SAN_OPTIONS") != NULL || !strncmp(name, "GV_", 3);
}

char *getenv(const char *name)
{
	char *v = own(name);
	return v || theirs(name) ? v : own("GV_WORLD");
}

char *secure_getenv(const char *name) { return getenv(name); }

static long ago(void)
{
	static long n;
	const char *w = own("GV_WORLD");
	return (w ? (unsigned char)*w : 1) * 31415926L + 86413 * ++n;
}

time_t time(time_t *t) { time_t v = ago(); if (t) *t = v; return v; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; t->tv_sec = ago(); t->tv_usec = ago() % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = ago(); t->tv_nsec = ago() % 1000000000; return 0; }
clock_t clock(void) { return ago(); }
int rand(void) { return ago() & 0x7fffffff; }
long random(void) { return ago() & 0x7fffffff; }
pid_t getpid(void) { return 1 + ago() % 30000; }
pid_t getppid(void) { return 1 + ago() % 30000; }
uid_t getuid(void) { return ago() % 60000; }
uid_t geteuid(void) { return ago() % 60000; }
char *getlogin(void) { return own("GV_WORLD"); }
int gethostname(char *s, size_t n) { strncpy(s, own("GV_WORLD") ? own("GV_WORLD") : "h", n); return 0; }
int isatty(int fd) { const char *w = own("GV_WORLD"); (void)fd; errno = ENOTTY; return w && *w > '5'; }
