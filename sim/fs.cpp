#include "fs.hpp"
#include "core.hpp"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace simfs
{
    Fs* FS;
    void reset() { FS = new Fs(); }
    static bool mine(const char* p) { return FS && sim::current() && p && strncmp(p, "/simfs/", 7) == 0; }
    static bool mine(int fd) { return FS && sim::current() && fd >= (1 << 20); }
    static void step(const char* what)
    {
        sim::yield_point(what);
        if (FS->slow && sim::chance(0.2, "slow-disk")) sim::sleep_us(sim::range(1, 20, "slow-disk-ms") * 1000);
    }
    static int fail(const char* what, int err)
    {
        SIM_EV("fs " << what << " fails " << err);
        if (FS->on_fault) FS->on_fault(what);
        errno = err;
        return -1;
    }
    static void changed(const InodeP& n)
    { for (auto& k : FS->names) if (k.second == n) { std::string p = k.first; if (FS->on_change) FS->on_change(p); break; } }
    static int new_fd(InodeP n, bool append)
    {
        int fd = FS->next_fd++;
        FS->fds[fd] = Fs::Fd{n, 0, append, sim::current_group()};
        return fd;
    }
    static int do_open(const char* path, int flags)
    {
        step("fs-open");
        auto i = FS->names.find(path);
        if (flags & O_CREAT)
        {
            if (i != FS->names.end() && (flags & O_EXCL)) { errno = EEXIST; return -1; }
            if (sim::fault(FS->p_fault, "fs-open-fails")) return fail("open", sim::choose(2, "errno") ? EMFILE : EIO);
            if (i == FS->names.end())
            {
                if (FS->full) return fail("open", ENOSPC);
                FS->names[path] = InodeP(new Inode());
                InodeP n = FS->names[path];
                SIM_EV("fs create " << path);
                changed(n);
                return new_fd(n, flags & O_APPEND);
            }
        }
        if (i == FS->names.end()) { errno = ENOENT; return -1; }
        InodeP n = i->second;
        if ((flags & O_TRUNC) && n->data.size()) { n->data.clear(); SIM_EV("fs truncate " << path); changed(n); }
        return new_fd(n, flags & O_APPEND);
    }
    static ssize_t do_write(int fd, const char* p, size_t len)
    {
        step("fs-write");
        auto i = FS->fds.find(fd);
        if (i == FS->fds.end()) { errno = EBADF; return -1; }
        if (len == 0) return 0;
        size_t n = len;
        if (FS->full)
        {
            // the last free block may take a part
            n = sim::chance(0.5, "last-block") ? 0 : sim::choose(uint32_t(len), "part");
            if (n == 0) return fail("write", ENOSPC);
            fail("write", 0);
            sim::note_fault("fs-disk-full-partial");
        }
        else if (sim::fault(FS->p_fault, "fs-write-fails"))
        {
            uint32_t k = sim::choose(4, "write-fault");
            if (k == 0) return fail("write", EIO);
            if (k == 1) return fail("write", EINTR);
            if (k == 2) return fail("write", ENOSPC);
            n = 1 + sim::choose(uint32_t(len), "part");
            if (n < len) fail("write", 0);      // short write
        }
        std::string& d = i->second.node->data;
        size_t pos = i->second.append ? d.size() : i->second.pos;
        if (d.size() < pos + n) d.resize(pos + n);
        d.replace(pos, n, p, n);
        i->second.pos = pos + n;
        InodeP node = i->second.node;
        changed(node);
        return ssize_t(n);
    }
    static int do_close(int fd)
    {
        auto i = FS->fds.find(fd);
        if (i == FS->fds.end()) { errno = EBADF; return -1; }
        FS->fds.erase(i);
        step("fs-close");
        if (sim::fault(FS->p_fault * 0.3, "fs-close-fails")) return fail("close", EIO);
        return 0;
    }
    static int do_rename(const char* a, const char* b)
    {
        step("fs-rename");
        auto i = FS->names.find(a);
        if (i == FS->names.end()) { errno = ENOENT; if (FS->on_fault) FS->on_fault("rename of a missing file"); return -1; }
        if (sim::fault(FS->p_fault, "fs-rename-fails")) return fail("rename", EIO);
        InodeP n = i->second;
        FS->names.erase(i);
        FS->names[b] = n;
        SIM_EV("fs rename " << a << " " << n->data.size());
        if (FS->on_change) { std::string s(b); FS->on_change(s); }
        return 0;
    }
    static int do_unlink(const char* a)
    {
        step("fs-unlink");
        auto i = FS->names.find(a);
        if (i == FS->names.end()) { errno = ENOENT; return -1; }
        FS->names.erase(i);
        SIM_EV("fs unlink " << a);
        if (FS->on_change) { std::string s(a); FS->on_change(s); }
        return 0;
    }
    static int do_mkstemp(char* t)
    {
        step("fs-mkstemp");
        size_t l = strlen(t);
        if (l < 6 || strcmp(t + l - 6, "XXXXXX")) return fail("mkstemp", EINVAL);
        if (sim::fault(FS->p_fault, "fs-mkstemp-fails"))
            return fail("mkstemp", sim::choose(2, "errno") ? EMFILE : EACCES);
        if (FS->full && sim::chance(0.5, "no-inode")) return fail("mkstemp", ENOSPC);
        snprintf(t + l - 6, 7, "%06u", ++FS->next_tmp);
        FS->names[t] = InodeP(new Inode());
        SIM_EV("fs mkstemp " << t);
        return new_fd(FS->names[t], false);
    }
}
using namespace simfs;

extern "C"
{
    int __real_mkstemp(char*); int __real_mkstemp64(char*); int __real_mkostemp(char*, int);
    int __wrap_mkstemp(char* t) { return mine(t) ? do_mkstemp(t) : __real_mkstemp(t); }
    int __wrap_mkstemp64(char* t) { return mine(t) ? do_mkstemp(t) : __real_mkstemp64(t); }
    int __wrap_mkostemp(char* t, int f) { return mine(t) ? do_mkstemp(t) : __real_mkostemp(t, f); }
    int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...);
    int __wrap_open(const char* p, int f, ...)
    {
        va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
        return mine(p) ? do_open(p, f) : __real_open(p, f, m);
    }
    int __wrap_open64(const char* p, int f, ...)
    {
        va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
        return mine(p) ? do_open(p, f) : __real_open64(p, f, m);
    }
    int __real_creat(const char*, mode_t);
    int __wrap_creat(const char* p, mode_t m) { return mine(p) ? do_open(p, O_WRONLY | O_CREAT | O_TRUNC) : __real_creat(p, m); }
    ssize_t __real_write(int, const void*, size_t);
    ssize_t __wrap_write(int fd, const void* p, size_t n)
    { return mine(fd) ? do_write(fd, static_cast<const char*>(p), n) : __real_write(fd, p, n); }
    ssize_t __real_writev(int, const struct iovec*, int);
    ssize_t __wrap_writev(int fd, const struct iovec* v, int c)
    {
        if (!mine(fd)) return __real_writev(fd, v, c);
        std::string s;
        for (int i = 0; i < c; ++i) s.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        return do_write(fd, s.data(), s.size());
    }
    ssize_t __real_pwrite(int, const void*, size_t, off_t);
    ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o)
    {
        if (!mine(fd)) return __real_pwrite(fd, p, n, o);
        auto i = FS->fds.find(fd);
        if (i == FS->fds.end()) { errno = EBADF; return -1; }
        size_t old = i->second.pos;
        i->second.pos = size_t(o);
        ssize_t r = do_write(fd, static_cast<const char*>(p), n);
        i = FS->fds.find(fd);
        if (i != FS->fds.end()) i->second.pos = old;
        return r;
    }
    int __real_close(int);
    int __wrap_close(int fd) { return mine(fd) ? do_close(fd) : __real_close(fd); }
    int __real_rename(const char*, const char*);
    int __wrap_rename(const char* a, const char* b) { return mine(a) ? do_rename(a, b) : __real_rename(a, b); }
    int __real_unlink(const char*);
    int __wrap_unlink(const char* a) { return mine(a) ? do_unlink(a) : __real_unlink(a); }
    int __real_remove(const char*);
    int __wrap_remove(const char* a) { return mine(a) ? do_unlink(a) : __real_remove(a); }
    int __real_fsync(int);
    int __wrap_fsync(int fd)
    { if (!mine(fd)) return __real_fsync(fd); step("fs-fsync"); return sim::fault(FS->p_fault, "fs-fsync-fails") ? fail("fsync", EIO) : 0; }
    int __real_fdatasync(int);
    int __wrap_fdatasync(int fd)
    { if (!mine(fd)) return __real_fdatasync(fd); step("fs-fsync"); return sim::fault(FS->p_fault, "fs-fsync-fails") ? fail("fsync", EIO) : 0; }
    int __real_fchmod(int, mode_t);
    int __wrap_fchmod(int fd, mode_t m) { return mine(fd) ? 0 : __real_fchmod(fd, m); }
    int __real_chmod(const char*, mode_t);
    int __wrap_chmod(const char* p, mode_t m) { return mine(p) ? 0 : __real_chmod(p, m); }
    int __real_access(const char*, int);
    int __wrap_access(const char* p, int m)
    { if (!mine(p)) return __real_access(p, m); if (FS->names.count(p)) return 0; errno = ENOENT; return -1; }
    off_t __real_lseek(int, off_t, int);
    off_t __wrap_lseek(int fd, off_t o, int wh)
    {
        if (!mine(fd)) return __real_lseek(fd, o, wh);
        auto i = FS->fds.find(fd);
        if (i == FS->fds.end()) { errno = EBADF; return -1; }
        off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? off_t(i->second.pos) : off_t(i->second.node->data.size());
        i->second.pos = size_t(base + o);
        return base + o;
    }
    int __real_ftruncate(int, off_t);
    int __wrap_ftruncate(int fd, off_t n)
    {
        if (!mine(fd)) return __real_ftruncate(fd, n);
        auto i = FS->fds.find(fd);
        if (i == FS->fds.end()) { errno = EBADF; return -1; }
        i->second.node->data.resize(size_t(n));
        InodeP node = i->second.node;
        changed(node);
        return 0;
    }
}
