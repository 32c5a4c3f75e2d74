// A file system in memory standing in for the system calls of the graph serializer. One call of a chosen kind can be made to fail.
#pragma once
#include "sx.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
namespace disk {
struct File { char path[32]; bool exists; unsigned char *data; int64_t len; };
struct Fd { bool open; File *f; int flags; int64_t pos; };
struct Map { unsigned char *p; int64_t len; File *f; int64_t off; bool write; bool shared; };
static bool on = false;
static File files[4];
static Fd fds[32];
static Map maps[16];
enum Kind { OPEN, TRUNCATE, STAT, MAPPING, SYNC, CLOSE, KINDS };
static int seen[KINDS], failKind = -1, failAt = 0, failErr = 5;
static bool fired = false;
static bool fails(Kind k) {
    int n = seen[k]++;
    if (k != failKind || n != failAt) return false;
    fired = true;
    errno = failErr;
    return true;
}
static File *find(const char *path, bool make) {
    for (auto &f : files) if (f.exists && !strcmp(f.path, path)) return &f;
    if (make) for (auto &f : files) if (!f.exists) { f.exists = true; f.data = nullptr; f.len = 0; size_t n = 0; while (path[n] && n < 31) { f.path[n] = path[n]; n++; } f.path[n] = 0; return &f; }
    return nullptr;
}
static void resize(File *f, int64_t n) {
    unsigned char *d = n ? (unsigned char *)malloc(n) : nullptr;
    for (int64_t i = 0; i < n; i++) d[i] = i < f->len ? f->data[i] : 0;
    free(f->data);
    f->data = d; f->len = n;
}
static File *create(const char *path, int64_t len) { File *f = find(path, true); resize(f, len); return f; }
static void begin() { on = true; fired = false; failKind = -1; for (auto &s : seen) s = 0; }
static Fd *get(int fd) { return fd >= 1000 && fd < 1032 && fds[fd - 1000].open ? &fds[fd - 1000] : nullptr; }
static void flush(Map &m) {
    if (!m.write || !m.shared) return;
    for (int64_t i = 0; i < m.len && m.off + i < m.f->len; i++) m.f->data[m.off + i] = m.p[i];
}
static int openFds() { int n = 0; for (auto &f : fds) n += f.open; return n; }
}
extern "C" {
int __real_open(const char *p, int fl, ...);
int __real_close(int fd);
int __real_ftruncate(int fd, off_t n);
int __real_fstat(int fd, struct stat *s);
void *__real_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o);
int __real_munmap(void *a, size_t n);
int __real_msync(void *a, size_t n, int fl);
int __wrap_open(const char *p, int fl, ...) {
    if (!disk::on) { va_list va; va_start(va, fl); int m = va_arg(va, int); va_end(va); return __real_open(p, fl, m); }
    if (disk::fails(disk::OPEN)) return -1;
    disk::File *f = disk::find(p, false);
    if (f && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if (!f && !(fl & O_CREAT)) { errno = ENOENT; return -1; }
    if (!f) f = disk::find(p, true);
    if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) disk::resize(f, 0);
    for (int i = 0; i < 32; i++) if (!disk::fds[i].open) { disk::fds[i] = {true, f, fl, 0}; return 1000 + i; }
    errno = EMFILE;
    return -1;
}
int __wrap_close(int fd) {
    if (!disk::on || fd < 1000) return __real_close(fd);
    disk::Fd *d = disk::get(fd);
    if (!d) { errno = EBADF; return -1; }
    d->open = false;
    return disk::fails(disk::CLOSE) ? -1 : 0;
}
int __wrap_ftruncate(int fd, off_t n) {
    if (!disk::on) return __real_ftruncate(fd, n);
    disk::Fd *d = disk::get(fd);
    if (!d) { errno = EBADF; return -1; }
    if ((d->flags & O_ACCMODE) == O_RDONLY || n < 0) { errno = EINVAL; return -1; }
    if (disk::fails(disk::TRUNCATE)) return -1;
    disk::resize(d->f, n);
    return 0;
}
int __wrap_fstat(int fd, struct stat *s) {
    if (!disk::on || fd < 1000) return __real_fstat(fd, s);
    disk::Fd *d = disk::get(fd);
    if (!d) { errno = EBADF; return -1; }
    if (disk::fails(disk::STAT)) return -1;
    memset(s, 0, sizeof *s);
    s->st_mode = S_IFREG | 0777;
    s->st_size = d->f->len;
    return 0;
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (!disk::on || fd < 1000) return __real_mmap(a, n, pr, fl, fd, o);
    disk::Fd *d = disk::get(fd);
    if (!d) { errno = EBADF; return MAP_FAILED; }
    if (n == 0 || (o & 4095)) { errno = EINVAL; return MAP_FAILED; }
    bool w = (pr & PROT_WRITE) != 0, sh = (fl & MAP_SHARED) != 0;
    if (w && sh && (d->flags & O_ACCMODE) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
    if (disk::fails(disk::MAPPING)) return MAP_FAILED;
    for (auto &m : disk::maps)
        if (!m.p) {
            int64_t len = o + (int64_t)n > d->f->len ? d->f->len - o : (int64_t)n; // what lies behind the file's end is not there
            if (len < 0) len = 0;
            m = {(unsigned char *)sx_alloc(len), len, d->f, o, w, sh};
            for (int64_t i = 0; i < len; i++) m.p[i] = d->f->data[o + i];
            return m.p;
        }
    errno = ENOMEM;
    return MAP_FAILED;
}
int __wrap_munmap(void *a, size_t n) {
    if (disk::on) for (auto &m : disk::maps) if (m.p && m.p == a) { disk::flush(m); sx_free(m.p); m.p = nullptr; return 0; }
    return __real_munmap(a, n);
}
int __wrap_msync(void *a, size_t n, int fl) {
    if (disk::on) for (auto &m : disk::maps) if (m.p && m.p == a) { if (disk::fails(disk::SYNC)) return -1; disk::flush(m); return 0; }
    if (disk::on) { errno = ENOMEM; return -1; }
    return __real_msync(a, n, fl);
}
}
