// Preloaded into the command line tool: tells the file named by TEMPS which temporary files and folders were made.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void note (const char *path)
{
    const char *to = getenv ("TEMPS");
    int fd = to ? open (to, O_WRONLY | O_APPEND | O_CLOEXEC) : -1;
    if (fd < 0) return;
    if (write (fd, path, strlen (path)) < 0 || write (fd, "\n", 1) < 0) abort ();
    close (fd);
}
#define FD(name, args, call) int name args { int (*f) args = (int (*) args) dlsym (RTLD_NEXT, #name); int r = f call; if (r >= 0) note (t); return r; }
FD (mkstemp, (char *t), (t))
FD (mkstemp64, (char *t), (t))
FD (mkostemp, (char *t, int fl), (t, fl))
FD (mkostemp64, (char *t, int fl), (t, fl))
FD (mkstemps, (char *t, int n), (t, n))
FD (mkostemps, (char *t, int n, int fl), (t, n, fl))
char *mkdtemp (char *t) { char *(*f) (char *) = (char *(*) (char *)) dlsym (RTLD_NEXT, "mkdtemp"); char *r = f (t); if (r) note (t); return r; }
