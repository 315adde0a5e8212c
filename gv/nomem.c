/* Preloaded: the GV_NOMEM-th request for memory is refused (and all behind it,
   if GV_NOMEM_MORE), and the file GV_NOMEM_LOG is created when that happens. */
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);

static long left = -1, more, depth;

__attribute__((constructor)) static void init(void)
{
	const char *n = getenv("GV_NOMEM"), *m = getenv("GV_NOMEM_MORE");
	more = m && *m;
	left = n ? atol(n) : -1;
}

static int refused(void)
{
	if (left < 0 || (left == 0 && !more) || depth)
		return 0;
	if (left > 0 && --left > 0)
		return 0;
	depth = 1;
	const char *log = getenv("GV_NOMEM_LOG");
	int f = open(log, O_CREAT | O_WRONLY, 0600);
	if (f >= 0)
		close(f);
	depth = 0;
	errno = ENOMEM;
	return 1;
}

void *malloc(size_t n) { return refused() ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t s) { return refused() ? NULL : __libc_calloc(n, s); }
void *realloc(void *p, size_t n) { return refused() ? NULL : __libc_realloc(p, n); }
