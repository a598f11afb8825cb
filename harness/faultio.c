/* LD_PRELOAD shim: makes the I/O on one file fail or come in small pieces.
 *   FAULT_PATH  the file          FAULT_KIND  read-eio write-enospc write-eio close-eio short eintr
 *   FAULT_AT    which call of that kind (1..)     FAULT_MARK  file created when a fault was injected */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static int target(int fd)
{
    const char* p = getenv("FAULT_PATH"); char link[64], got[4096]; ssize_t n;
    if (!p || fd < 3) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, got, sizeof got - 1); if (n < 0) return 0;
    got[n] = 0; return !strcmp(got, p);
}
static int kind(const char* k) { const char* e = getenv("FAULT_KIND"); return e && !strcmp(e, k); }
static int hit(int* calls) { const char* a = getenv("FAULT_AT"); return ++*calls == (a ? atoi(a) : 1); }
static void mark(void) { const char* m = getenv("FAULT_MARK"); int e = errno; if (m) { int fd = open(m, O_WRONLY | O_CREAT, 0644); if (fd >= 0) close(fd); } errno = e; }

ssize_t read(int fd, void* b, size_t n)
{
    static ssize_t (*real)(int, void*, size_t); static int calls, intr;
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (target(fd))
    {
        if (kind("read-eio") && hit(&calls)) { mark(); errno = EIO; return -1; }
        if (kind("eintr") && intr++ % 2 == 0) { mark(); errno = EINTR; return -1; }
        if (kind("short") && n > 5) { mark(); n = 5; }
    }
    return real(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
    static ssize_t (*real)(int, const void*, size_t); static int calls;
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (target(fd))
    {
        if ((kind("write-enospc") || kind("write-eio")) && hit(&calls)) { mark(); errno = kind("write-eio") ? EIO : ENOSPC; return -1; }
        if (kind("short") && n > 3) { mark(); n = 3; }
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    static ssize_t (*real)(int, const struct iovec*, int);
    int i;
    if (!real) real = dlsym(RTLD_NEXT, "writev");
    if (target(fd)) { for (i = 0; i < c; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
    return real(fd, v, c);
}
int fclose(FILE* f)
{
    static int (*real)(FILE*);
    int bad = f && target(fileno(f)) && kind("close-eio"), r;
    if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    r = real(f);
    if (bad) { mark(); errno = EIO; return EOF; }
    return r;
}
