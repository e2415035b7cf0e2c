// Stand-ins for the C library's file operations. They keep the library's log file out of the sandbox,
// and make a chosen operation fail, or the process end in front of it.
#include <dlfcn.h>
#include <cerrno>
#include <cstdarg>
#include <set>
#include <sys/uio.h>
static bool g_window = false;          // operations are counted
static int g_count = 0, g_fail = 0, g_die = 0, g_errno = EIO;
static bool g_crashed = false;         // a process died in the middle of a write
static bool g_broken = false;          // an operation failed on purpose
static std::set<std::string> *g_temps; // temporary names handed to the library
static void note (const char *p);
#define REAL(name) static auto real = (decltype (&name)) dlsym (RTLD_NEXT, #name)
static bool strike ()
{
    if (!g_window) return false;
    g_count++;
    if (g_count == g_die) _exit (97);
    if (g_count == g_fail) { g_broken = true; errno = g_errno; return true; }
    return false;
}
static bool writes (const char *m) { return strpbrk (m, "wa+") != nullptr; }
extern "C" FILE *fopen (const char *p, const char *m)
{
    REAL (fopen);
    if (p && !strcmp (p, "/var/log/disir.log")) return getenv ("DRV_LOG") ? real ("/dev/null", m) : nullptr;
    if (writes (m) && strike ()) return nullptr;
    return real (p, m);
}
extern "C" FILE *fopen64 (const char *p, const char *m) { REAL (fopen64); if (writes (m) && strike ()) return nullptr; return real (p, m); }
extern "C" int fclose (FILE *f) { REAL (fclose); if (strike ()) { real (f); errno = g_errno; return EOF; } return real (f); }
extern "C" int open (const char *p, int f, ...)
{
    REAL (open); va_list a; va_start (a, f); int m = (f & O_CREAT) ? va_arg (a, int) : 0; va_end (a);
    if ((f & O_ACCMODE) != O_RDONLY && strike ()) return -1;
    return real (p, f, m);
}
extern "C" int open64 (const char *p, int f, ...)
{
    REAL (open64); va_list a; va_start (a, f); int m = (f & O_CREAT) ? va_arg (a, int) : 0; va_end (a);
    if ((f & O_ACCMODE) != O_RDONLY && strike ()) return -1;
    return real (p, f, m);
}
extern "C" ssize_t write (int fd, const void *b, size_t n) { REAL (write); if (strike ()) return -1; return real (fd, b, n); }
extern "C" ssize_t writev (int fd, const struct iovec *v, int n) { REAL (writev); if (strike ()) return -1; return real (fd, v, n); }
extern "C" size_t fwrite (const void *b, size_t s, size_t n, FILE *f) { REAL (fwrite); if (strike ()) return 0; return real (b, s, n, f); }
extern "C" int fflush (FILE *f) { REAL (fflush); if (strike ()) return EOF; return real (f); }
extern "C" int rename (const char *a, const char *b) { REAL (rename); if (strike ()) return -1; return real (a, b); }
extern "C" int remove (const char *p) { REAL (remove); if (strike ()) return -1; return real (p); }
extern "C" int unlink (const char *p) { REAL (unlink); if (strike ()) return -1; return real (p); }
extern "C" int rmdir (const char *p) { REAL (rmdir); if (strike ()) return -1; return real (p); }
extern "C" int mkdir (const char *p, mode_t m) { REAL (mkdir); if (strike ()) return -1; return real (p, m); }
extern "C" char *mkdtemp (char *t) { REAL (mkdtemp); if (strike ()) return nullptr; char *r = real (t); if (r) note (r); return r; }
extern "C" int mkstemp (char *t) { REAL (mkstemp); if (strike ()) return -1; int r = real (t); if (r >= 0) note (t); return r; }
extern "C" int mkstemp64 (char *t) { REAL (mkstemp64); if (strike ()) return -1; int r = real (t); if (r >= 0) note (t); return r; }
static void note (const char *p) { if (!g_temps) return; bool o = g_in; g_in = false; g_temps->insert (p); g_in = o; }
