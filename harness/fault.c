/* Loaded with LD_PRELOAD into the seldon executable: lets calls of the file system fail, transfer less than asked for,
   be interrupted, or kills the process there. Only files whose path contains FAULT_PATH are affected.
   FAULT_OP   open | read | write | close | short | kill
   FAULT_N    the how manieth matching call is hit (from 1)
   FAULT_ERR  the errno
   FAULT_ONCE 1: only that call fails, 0: all later ones as well
   FAULT_LOG  gets one byte per injected fault */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *op, *path, *logfile;
static long n, count, turn;
static int err, once;

__attribute__((constructor)) static void setup(void)
{
    op      = getenv("FAULT_OP");
    path    = getenv("FAULT_PATH");
    logfile = getenv("FAULT_LOG");
    n       = getenv("FAULT_N") ? atol(getenv("FAULT_N")) : 1;
    err     = getenv("FAULT_ERR") ? atoi(getenv("FAULT_ERR")) : EIO;
    once    = getenv("FAULT_ONCE") && *getenv("FAULT_ONCE") == '1';
}

static void note(void)
{
    if (!logfile)
        return;
    int fd = syscall(SYS_openat, AT_FDCWD, logfile, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        syscall(SYS_write, fd, "x", 1L);
        syscall(SYS_close, fd);
    }
}

static int named(const char * name)
{
    return op && path && name && strstr(name, path);
}

static int fd_named(int fd)
{
    char link[64], name[4096];
    if (!op || !path || fd < 3)
        return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    long l = syscall(SYS_readlinkat, AT_FDCWD, link, name, sizeof name - 1);
    if (l <= 0)
        return 0;
    name[l] = 0;
    return named(name);
}

/* is this call to fail? */
static int hit(const char * what)
{
    if (!op || (strcmp(op, what) && strcmp(op, "kill")))
        return 0;
    count++;
    if (!strcmp(op, "kill")) {
        if (count == n) {
            note();
            syscall(SYS_kill, getpid(), SIGKILL);
        }
        return 0;
    }
    if (count == n || (count > n && !once)) {
        note();
        errno = err;
        return 1;
    }
    return 0;
}

/* 0: as usual, 1: interrupted, 2: only a part */
static int partly(void)
{
    if (!op || strcmp(op, "short"))
        return 0;
    int t = ++turn % 3;
    if (t) {
        note();
        if (t == 1)
            errno = EINTR;
    }
    return t;
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

FILE * fopen(const char * name, const char * mode)
{
    if (named(name) && hit("open"))
        return NULL;
    return REAL(fopen)(name, mode);
}

FILE * fopen64(const char * name, const char * mode)
{
    if (named(name) && hit("open"))
        return NULL;
    return REAL(fopen64)(name, mode);
}

static int open_mode(int flags, va_list ap)
{
    return flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
}

int open(const char * name, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = open_mode(flags, ap);
    va_end(ap);
    if (named(name) && hit("open"))
        return -1;
    return syscall(SYS_openat, AT_FDCWD, name, flags, mode);
}

int open64(const char * name, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = open_mode(flags, ap);
    va_end(ap);
    if (named(name) && hit("open"))
        return -1;
    return syscall(SYS_openat, AT_FDCWD, name, flags, mode);
}

ssize_t read(int fd, void * buf, size_t size)
{
    if (fd_named(fd)) {
        if (hit("read"))
            return -1;
        int p = partly();
        if (p == 1)
            return -1;
        if (p == 2 && size > 1)
            size = size > 100 ? 1 + (unsigned long)turn * 37 % 100 : 1;
    }
    return syscall(SYS_read, fd, buf, size);
}

ssize_t write(int fd, const void * buf, size_t size)
{
    if (fd_named(fd)) {
        if (hit("write"))
            return -1;
        int p = partly();
        if (p == 1)
            return -1;
        if (p == 2 && size > 1)
            size = size > 100 ? 1 + (unsigned long)turn * 37 % 100 : 1;
    }
    return syscall(SYS_write, fd, buf, size);
}

ssize_t writev(int fd, const struct iovec * v, int k)
{
    if (fd_named(fd)) {
        if (hit("write"))
            return -1;
        int p = partly();
        if (p == 1)
            return -1;
        if (p == 2 && k > 0 && v[0].iov_len > 1)
            return syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2);
    }
    return syscall(SYS_writev, fd, v, k);
}

int fclose(FILE * f)
{
    int fail = f && fd_named(fileno(f)) && hit("close");
    int e = errno, r = REAL(fclose)(f);
    if (fail) {
        errno = e;
        return EOF;
    }
    return r;
}
