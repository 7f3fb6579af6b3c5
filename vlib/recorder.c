/*
 * Records what a process does to the files below a directory: an LD_PRELOAD
 * library for the crash and fault checks.  The log is a sequence of
 *     type (1 byte), length (4 bytes, little endian), payload
 *
 *   C ino name            a file was created
 *   W ino offset data     data was written
 *   T ino length          a file was truncated (or extended)
 *   F ino                 a file was synchronized
 *   R old new             rename
 *   U name                unlink
 *   L old new             link
 *   D                     a directory was synchronized
 *   A                     everything was synchronized
 *   M text                a mark made by the program
 *   X text                something happened that the recorder does not know
 *
 * Faults: vp_fail() makes calls fail that write or synchronize these files.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *) dlsym(RTLD_NEXT, #name)

static pthread_mutex_t lock = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static char prefix[PATH_MAX];
static size_t prefix_len;
static int log_fd = -1;
static int active;

/* faults: kind 1 = write, 2 = sync, 3 = both */
static int fail_kind, fail_nth, fail_errno, fail_short, fail_sticky;
static long fail_calls, fail_fired;

static ssize_t
raw_write(int fd, const void *data, size_t n)
{
    REAL(write);
    return real(fd, data, n);
}

static void
put(const void *data, size_t n)
{
    const char *p = data;
    while (n > 0) {
        ssize_t k = raw_write(log_fd, p, n);
        if (k < 0) {
            if (errno == EINTR)
                continue;
            _exit(97);
        }
        p += k;
        n -= k;
    }
}

static void
event(char type, const void *a, size_t na, const void *b, size_t nb,
      const void *c, size_t nc)
{
    uint32_t n = na + nb + nc;
    int saved = errno;
    char *buffer;
    if (log_fd < 0)
        return;
    buffer = malloc(5 + n);
    if (!buffer)
        _exit(97);
    buffer[0] = type;
    memcpy(buffer + 1, &n, 4);
    if (na) memcpy(buffer + 5, a, na);
    if (nb) memcpy(buffer + 5 + na, b, nb);
    if (nc) memcpy(buffer + 5 + na + nb, c, nc);
    put(buffer, 5 + n);
    free(buffer);
    errno = saved;
}

EXPORT int
vp_start(const char *directory, const char *log)
{
    int fd;
    pthread_mutex_lock(&lock);
    if (log_fd >= 0)
        close(log_fd);
    log_fd = -1;
    active = 0;
    fail_kind = 0;
    {
        REAL(open);
        fd = real(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    }
    if (fd >= 0) {
        log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 700);
        if (log_fd < 0)
            log_fd = fd;
        else
            close(fd);
        strncpy(prefix, directory, sizeof prefix - 2);
        prefix_len = strlen(prefix);
        active = 1;
    }
    pthread_mutex_unlock(&lock);
    return log_fd;
}

EXPORT void
vp_stop(void)
{
    pthread_mutex_lock(&lock);
    if (log_fd >= 0)
        close(log_fd);
    log_fd = -1;
    active = 0;
    fail_kind = 0;
    pthread_mutex_unlock(&lock);
}

EXPORT void
vp_mark(const char *text)
{
    pthread_mutex_lock(&lock);
    if (active)
        event('M', text, strlen(text), NULL, 0, NULL, 0);
    pthread_mutex_unlock(&lock);
}

EXPORT void
vp_fail(int kind, int nth, int err, int partial, int sticky)
{
    pthread_mutex_lock(&lock);
    fail_kind = kind;
    fail_nth = nth;
    fail_errno = err;
    fail_short = partial;
    fail_sticky = sticky;
    fail_calls = 0;
    fail_fired = 0;
    pthread_mutex_unlock(&lock);
}

EXPORT long
vp_fired(void)
{
    return fail_fired;
}

EXPORT long
vp_calls(void)
{
    return fail_calls;
}

static int
name_below(const char *name)
{
    return prefix_len && strncmp(name, prefix, prefix_len) == 0 &&
        name[prefix_len] == '/';
}

static int
full_name(int dirfd, const char *path, char *out)
{
    char directory[PATH_MAX], proc[64];
    ssize_t n;
    if (path[0] == '/') {
        snprintf(out, PATH_MAX, "%s", path);
    } else {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(directory, sizeof directory))
                return 0;
        } else {
            snprintf(proc, sizeof proc, "/proc/self/fd/%d", dirfd);
            n = readlink(proc, directory, sizeof directory - 1);
            if (n < 0)
                return 0;
            directory[n] = 0;
        }
        if (snprintf(out, PATH_MAX, "%s/%s", directory, path) >= PATH_MAX)
            return 0;
    }
    return name_below(out);
}

/* Is this descriptor a regular file in the directory?  -> inode, or 0 */
static uint64_t
watched(int fd)
{
    char proc[64], name[PATH_MAX];
    struct stat st;
    ssize_t n;
    int saved = errno;
    uint64_t result = 0;
    if (!active || fd == log_fd || fd < 0)
        return 0;
    snprintf(proc, sizeof proc, "/proc/self/fd/%d", fd);
    n = readlink(proc, name, sizeof name - 1);
    if (n > 0) {
        name[n] = 0;
        if (name_below(name) && fstat(fd, &st) == 0 && S_ISREG(st.st_mode))
            result = st.st_ino;
    }
    errno = saved;
    return result;
}

/* Is this descriptor the directory, or a directory in it? */
static int
watched_directory(int fd)
{
    char proc[64], name[PATH_MAX];
    struct stat st;
    ssize_t n;
    int saved = errno, result = 0;
    if (!active || fd < 0)
        return 0;
    snprintf(proc, sizeof proc, "/proc/self/fd/%d", fd);
    n = readlink(proc, name, sizeof name - 1);
    if (n > 0) {
        name[n] = 0;
        result = (name_below(name) || strcmp(name, prefix) == 0) &&
            fstat(fd, &st) == 0 && S_ISDIR(st.st_mode);
    }
    errno = saved;
    return result;
}

static int
should_fail(int kind)
{
    if (!(fail_kind & kind))
        return 0;
    fail_calls++;
    if (fail_calls == fail_nth || (fail_sticky && fail_calls > fail_nth)) {
        fail_fired++;
        return 1;
    }
    return 0;
}

static void
log_sync_flags(int fd, uint64_t ino)
{
    int flags = fcntl(fd, F_GETFL);
    if (flags >= 0 && (flags & (O_SYNC | O_DSYNC)) != 0)
        event('F', &ino, 8, NULL, 0, NULL, 0);
}

/* How much a write that fails writes: nothing, or a part.
 * fail_short: the part, in thousandths; the next write fails.
 * fail_short > 1000: the same, but no write fails. */
static size_t
short_write(size_t n)
{
    int part = fail_short % 1000;
    if (!fail_short)
        return 0;
    if (fail_short < 1000) {
        if (n < 2 || fail_fired > 1)
            return 0;
        if (!fail_sticky) {
            fail_nth = fail_calls + 1;
            fail_short = 0;
        }
    }
    n = n * part / 1000;
    return n ? n : 1;
}

static void
log_write(uint64_t ino, int64_t offset, const void *data, ssize_t n)
{
    if (n > 0) {
        event('W', &ino, 8, &offset, 8, data, n);
    }
}

static ssize_t
do_write(int fd, const void *data, size_t n)
{
    uint64_t ino = watched(fd);
    ssize_t k;
    if (!ino)
        return raw_write(fd, data, n);
    if (n && should_fail(1)) {
        n = short_write(n);
        if (!n) {
            errno = fail_errno;
            return -1;
        }
    }
    k = raw_write(fd, data, n);
    if (k > 0) {
        int saved = errno;
        int64_t end = lseek(fd, 0, SEEK_CUR);
        log_write(ino, end - k, data, k);
        log_sync_flags(fd, ino);
        errno = saved;
    }
    return k;
}

EXPORT ssize_t
write(int fd, const void *data, size_t n)
{
    ssize_t k;
    if (!active)
        return raw_write(fd, data, n);
    pthread_mutex_lock(&lock);
    k = do_write(fd, data, n);
    pthread_mutex_unlock(&lock);
    return k;
}

static ssize_t
do_pwrite(int fd, const void *data, size_t n, off_t offset)
{
    uint64_t ino = watched(fd);
    ssize_t k;
    REAL(pwrite64);
    if (!ino)
        return real(fd, data, n, offset);
    if (n && should_fail(1)) {
        n = short_write(n);
        if (!n) {
            errno = fail_errno;
            return -1;
        }
    }
    k = real(fd, data, n, offset);
    if (k > 0) {
        log_write(ino, offset, data, k);
        log_sync_flags(fd, ino);
    }
    return k;
}

EXPORT ssize_t
pwrite(int fd, const void *data, size_t n, off_t offset)
{
    ssize_t k;
    pthread_mutex_lock(&lock);
    k = do_pwrite(fd, data, n, offset);
    pthread_mutex_unlock(&lock);
    return k;
}

EXPORT ssize_t
pwrite64(int fd, const void *data, size_t n, off64_t offset)
{
    return pwrite(fd, data, n, offset);
}

EXPORT ssize_t
writev(int fd, const struct iovec *iov, int count)
{
    ssize_t total = 0, k;
    int i;
    REAL(writev);
    pthread_mutex_lock(&lock);
    if (!watched(fd)) {
        pthread_mutex_unlock(&lock);
        return real(fd, iov, count);
    }
    for (i = 0; i < count; i++) {
        k = do_write(fd, iov[i].iov_base, iov[i].iov_len);
        if (k < 0) {
            if (total == 0)
                total = -1;
            break;
        }
        total += k;
        if ((size_t) k < iov[i].iov_len)
            break;
    }
    pthread_mutex_unlock(&lock);
    return total;
}

EXPORT ssize_t
pwritev(int fd, const struct iovec *iov, int count, off_t offset)
{
    ssize_t total = 0, k;
    int i;
    pthread_mutex_lock(&lock);
    for (i = 0; i < count; i++) {
        k = do_pwrite(fd, iov[i].iov_base, iov[i].iov_len, offset + total);
        if (k < 0) {
            if (total == 0)
                total = -1;
            break;
        }
        total += k;
        if ((size_t) k < iov[i].iov_len)
            break;
    }
    pthread_mutex_unlock(&lock);
    return total;
}

EXPORT ssize_t
pwritev2(int fd, const struct iovec *iov, int count, off_t offset, int flags)
{
    return pwritev(fd, iov, count, offset);
}

EXPORT ssize_t
sendfile(int out, int in, off_t *offset, size_t n)
{
    REAL(sendfile);
    if (active && watched(out)) {
        errno = EINVAL;
        return -1;
    }
    return real(out, in, offset, n);
}

EXPORT ssize_t
sendfile64(int out, int in, off64_t *offset, size_t n)
{
    return sendfile(out, in, offset, n);
}

EXPORT ssize_t
copy_file_range(int in, off64_t *in_offset, int out, off64_t *out_offset,
                size_t n, unsigned int flags)
{
    REAL(copy_file_range);
    if (active && watched(out)) {
        errno = EOPNOTSUPP;
        return -1;
    }
    return real(in, in_offset, out, out_offset, n, flags);
}

static int
do_truncate(int fd, off_t length)
{
    uint64_t ino = watched(fd);
    int64_t n = length;
    int result;
    REAL(ftruncate64);
    result = real(fd, length);
    if (result == 0 && ino)
        event('T', &ino, 8, &n, 8, NULL, 0);
    return result;
}

EXPORT int
ftruncate(int fd, off_t length)
{
    int result;
    pthread_mutex_lock(&lock);
    result = do_truncate(fd, length);
    pthread_mutex_unlock(&lock);
    return result;
}

EXPORT int
ftruncate64(int fd, off64_t length)
{
    return ftruncate(fd, length);
}

EXPORT int
truncate(const char *path, off_t length)
{
    REAL(open64);
    int result, fd = real(path, O_WRONLY);
    if (fd < 0)
        return -1;
    result = ftruncate(fd, length);
    close(fd);
    return result;
}

EXPORT int
truncate64(const char *path, off64_t length)
{
    return truncate(path, length);
}

EXPORT int
fallocate(int fd, int mode, off_t offset, off_t length)
{
    REAL(fallocate);
    if (active && watched(fd)) {
        errno = EOPNOTSUPP;
        return -1;
    }
    return real(fd, mode, offset, length);
}

EXPORT int
fallocate64(int fd, int mode, off64_t offset, off64_t length)
{
    return fallocate(fd, mode, offset, length);
}

EXPORT int
posix_fallocate(int fd, off_t offset, off_t length)
{
    REAL(posix_fallocate);
    if (active && watched(fd))
        return EOPNOTSUPP;
    return real(fd, offset, length);
}

EXPORT int
posix_fallocate64(int fd, off64_t offset, off64_t length)
{
    return posix_fallocate(fd, offset, length);
}

static int
do_sync(int fd, int (*real)(int))
{
    uint64_t ino;
    int result;
    if (!active)
        return real(fd);
    pthread_mutex_lock(&lock);
    ino = watched(fd);
    if (!ino && watched_directory(fd)) {
        event('D', NULL, 0, NULL, 0, NULL, 0);
        result = 0;
    } else if (ino && should_fail(2)) {
        errno = fail_errno;
        result = -1;
    } else {
        /* The recorder decides what is durable; the disk need not work. */
        result = ino ? 0 : real(fd);
        if (result == 0 && ino)
            event('F', &ino, 8, NULL, 0, NULL, 0);
    }
    pthread_mutex_unlock(&lock);
    return result;
}

EXPORT int
fsync(int fd)
{
    REAL(fsync);
    return do_sync(fd, real);
}

EXPORT int
fdatasync(int fd)
{
    REAL(fdatasync);
    return do_sync(fd, real);
}

EXPORT void
sync(void)
{
    pthread_mutex_lock(&lock);
    if (active)
        event('A', NULL, 0, NULL, 0, NULL, 0);
    pthread_mutex_unlock(&lock);
}

EXPORT int
syncfs(int fd)
{
    sync();
    return 0;
}

static int
do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char name[PATH_MAX];
    struct stat st;
    int fd, below, existed = 1, saved;
    REAL(openat64);
    if (!active)
        return real(dirfd, path, flags, mode);
    pthread_mutex_lock(&lock);
    below = full_name(dirfd, path, name);
    if (below && (flags & O_CREAT))
        existed = lstat(name, &st) == 0;
    fd = real(dirfd, path, flags, mode);
    if (fd >= 0) {
        saved = errno;
        if ((flags & O_TMPFILE) == O_TMPFILE) {
            if (watched(fd))
                event('X', "O_TMPFILE", 9, NULL, 0, NULL, 0);
        } else if (below && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
            uint64_t ino = st.st_ino;
            int64_t zero = 0;
            if (!existed)
                event('C', &ino, 8, name, strlen(name), NULL, 0);
            else if (flags & O_TRUNC)
                event('T', &ino, 8, &zero, 8, NULL, 0);
        }
        errno = saved;
    }
    pthread_mutex_unlock(&lock);
    return fd;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if (((flags) & O_CREAT) || ((flags) & O_TMPFILE) == O_TMPFILE) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, int); \
        va_end(ap); \
    }

EXPORT int
open(const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(AT_FDCWD, path, flags, mode);
}

EXPORT int
open64(const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode);
}

EXPORT int
openat(int dirfd, const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(dirfd, path, flags, mode);
}

EXPORT int
openat64(int dirfd, const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(dirfd, path, flags | O_LARGEFILE, mode);
}

EXPORT int
creat(const char *path, mode_t mode)
{
    return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

EXPORT int
creat64(const char *path, mode_t mode)
{
    return creat(path, mode);
}

static int
do_rename(int olddir, const char *old, int newdir, const char *new,
          unsigned int flags)
{
    char a[PATH_MAX], b[PATH_MAX];
    int result, below;
    uint32_t n;
    REAL(renameat2);
    if (!active)
        return real(olddir, old, newdir, new, flags);
    pthread_mutex_lock(&lock);
    below = full_name(olddir, old, a) | full_name(newdir, new, b);
    result = real(olddir, old, newdir, new, flags);
    if (result == 0 && below) {
        n = strlen(a);
        if (flags & ~1u)
            event('X', "renameat2", 9, NULL, 0, NULL, 0);
        event('R', &n, 4, a, n, b, strlen(b));
    }
    pthread_mutex_unlock(&lock);
    return result;
}

EXPORT int
rename(const char *old, const char *new)
{
    return do_rename(AT_FDCWD, old, AT_FDCWD, new, 0);
}

EXPORT int
renameat(int olddir, const char *old, int newdir, const char *new)
{
    return do_rename(olddir, old, newdir, new, 0);
}

EXPORT int
renameat2(int olddir, const char *old, int newdir, const char *new,
          unsigned int flags)
{
    return do_rename(olddir, old, newdir, new, flags);
}

EXPORT int
unlinkat(int dirfd, const char *path, int flags)
{
    char name[PATH_MAX];
    int result, below;
    REAL(unlinkat);
    if (!active)
        return real(dirfd, path, flags);
    pthread_mutex_lock(&lock);
    below = full_name(dirfd, path, name);
    result = real(dirfd, path, flags);
    if (result == 0 && below && !(flags & AT_REMOVEDIR))
        event('U', name, strlen(name), NULL, 0, NULL, 0);
    pthread_mutex_unlock(&lock);
    return result;
}

EXPORT int
unlink(const char *path)
{
    return unlinkat(AT_FDCWD, path, 0);
}

EXPORT int
remove(const char *path)
{
    return unlinkat(AT_FDCWD, path, 0);
}

EXPORT int
linkat(int olddir, const char *old, int newdir, const char *new, int flags)
{
    char a[PATH_MAX], b[PATH_MAX];
    int result, below;
    uint32_t n;
    REAL(linkat);
    if (!active)
        return real(olddir, old, newdir, new, flags);
    pthread_mutex_lock(&lock);
    below = full_name(olddir, old, a) | full_name(newdir, new, b);
    result = real(olddir, old, newdir, new, flags);
    if (result == 0 && below) {
        n = strlen(a);
        event('L', &n, 4, a, n, b, strlen(b));
    }
    pthread_mutex_unlock(&lock);
    return result;
}

EXPORT int
link(const char *old, const char *new)
{
    return linkat(AT_FDCWD, old, AT_FDCWD, new, 0);
}

EXPORT int
symlinkat(const char *target, int dirfd, const char *path)
{
    char name[PATH_MAX];
    int below;
    REAL(symlinkat);
    pthread_mutex_lock(&lock);
    below = active && full_name(dirfd, path, name);
    if (below)
        event('X', "symlink", 7, NULL, 0, NULL, 0);
    pthread_mutex_unlock(&lock);
    return real(target, dirfd, path);
}

EXPORT int
symlink(const char *target, const char *path)
{
    return symlinkat(target, AT_FDCWD, path);
}

static void
note_mmap(int prot, int flags, int fd)
{
    if (active && fd >= 0 && (prot & PROT_WRITE) &&
        (flags & MAP_TYPE) != MAP_PRIVATE) {
        pthread_mutex_lock(&lock);
        if (watched(fd)) {
            char proc[64], name[PATH_MAX];
            ssize_t n;
            snprintf(proc, sizeof proc, "/proc/self/fd/%d", fd);
            n = readlink(proc, name, sizeof name - 1);
            event('X', "mmap ", 5, name, n > 0 ? n : 0, NULL, 0);
        }
        pthread_mutex_unlock(&lock);
    }
}

EXPORT void *
mmap(void *address, size_t n, int prot, int flags, int fd, off_t offset)
{
    REAL(mmap);
    note_mmap(prot, flags, fd);
    return real(address, n, prot, flags, fd, offset);
}

EXPORT void *
mmap64(void *address, size_t n, int prot, int flags, int fd, off64_t offset)
{
    REAL(mmap64);
    note_mmap(prot, flags, fd);
    return real(address, n, prot, flags, fd, offset);
}
