/* Counts the file operations of the code under test and lets the k-th one kill the process or fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>

static int armed, at, mode, count;

void vf_arm (int k, int m) { armed = 1; at = k; mode = m; count = 0; }
int vf_disarm (void) { armed = 0; return count; }

/* 1: this operation is to fail */
static int hit (void)
{
    if (!armed) return 0;
    count++;
    if (count != at) return 0;
    if (mode == 0) _exit (77);
    errno = mode == 1 ? ENOSPC : EIO;
    return 1;
}

#define REAL(name) static __typeof__ (&name) real; if (!real) real = dlsym (RTLD_NEXT, #name)

size_t fwrite (const void *p, size_t s, size_t n, FILE *f)
{
    REAL (fwrite);
    if (f != stderr && f != stdout && fileno (f) >= 0 && hit ()) return 0;
    return real (p, s, n, f);
}
int fclose (FILE *f)
{
    REAL (fclose);
    if (hit ()) { real (f); errno = ENOSPC; return EOF; }
    return real (f);
}
int fflush (FILE *f)
{
    REAL (fflush);
    if (f != stderr && f != stdout && f && fileno (f) >= 0 && hit ()) return EOF;
    return real (f);
}
FILE *fdopen (int fd, const char *m)
{
    REAL (fdopen);
    if (hit ()) return NULL;
    return real (fd, m);
}
int rename (const char *a, const char *b)
{
    REAL (rename);
    if (hit ()) return -1;
    return real (a, b);
}
int unlink (const char *a)
{
    REAL (unlink);
    if (hit ()) return -1;
    return real (a);
}
int remove (const char *a)
{
    REAL (remove);
    if (hit ()) return -1;
    return real (a);
}
