// Link-time interposition shared by every driver (-Wl,--wrap=fopen): the library appends every log line to
// /var/log/disir.log; the drivers send that to /dev/null so that the formatting code runs but no file grows.
#include <cstdio>
#include <cstring>
#include <string>
extern "C" FILE *__real_fopen (const char *path, const char *mode);
FILE *(*g_fopen_hook) (const char *path, const char *mode) = nullptr;
thread_local FILE *g_log_file = nullptr;             // the log, while it is open
extern "C" FILE *__wrap_fopen (const char *path, const char *mode)
{
    if (path && strcmp (path, "/var/log/disir.log") == 0) return g_log_file = __real_fopen ("/dev/null", mode);
    if (g_fopen_hook) return g_fopen_hook (path, mode);
    return __real_fopen (path, mode);
}
