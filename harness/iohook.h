// Stands in front of the file system calls of this process: crash points are recorded at every call, and a chosen call can be made to fail.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace io {
typedef std::map<std::string, std::string> Files;
static bool on = false; static int failAt = 0, failMode = 0, count = 0, failed = 0, calls = 0; static std::string dir; static std::vector<Files> snaps; static bool skipClose = false;
static const char *stepBase = nullptr; static size_t stepLen = 0; static std::string stepLast; static unsigned long traps = 0;
inline std::string slurp(const std::string &p) { int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); std::string s; if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n); syscall(SYS_close, fd); return s; }
inline Files look(const std::string &d) { Files f; DIR *x = opendir(d.c_str()); if (!x) return f; while (dirent *e = readdir(x)) if (e->d_name[0] != '.') f[e->d_name] = slurp(d + "/" + e->d_name); closedir(x); return f; }
inline void put(const std::string &d, const Files &f) { for (auto &x : f) { int fd = syscall(SYS_openat, AT_FDCWD, (d + "/" + x.first).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < x.second.size()) { ssize_t n = syscall(SYS_write, fd, x.second.data() + o, x.second.size() - o); if (n <= 0) break; o += n; } syscall(SYS_close, fd); } }
inline void clean(const std::string &d) { for (auto &x : look(d)) syscall(SYS_unlink, (d + "/" + x.first).c_str()); }
inline void point() { if (!on) return; on = false; ++calls; Files f = look(dir); if (snaps.empty() || snaps.back() != f) snaps.push_back(std::move(f)); on = true; }
// true: the call has to fail
inline bool hit(int err) { if (!on) return false; point(); ++count; if (failAt && (failMode ? count >= failAt : count == failAt)) { ++failed; errno = err; return true; } return false; }
inline void trap(int, siginfo_t *, void *) { ++traps; if (!stepBase) return; if (memcmp(stepBase, stepLast.data(), stepLen) != 0) { stepLast.assign(stepBase, stepLen); bool o = on; on = true; point(); on = o; } }
// runs f one instruction at a time, recording a crash point whenever the mapping changed; f must not remap it
inline void stepped(const void *base, size_t len, const std::function<void()> &f) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr); stepLast.assign((const char *)base, len); stepBase = (const char *)base; stepLen = len;
  asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq\n" ::: "memory", "cc"); f(); asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq\n" ::: "memory", "cc"); stepBase = nullptr; }
} // namespace io

extern "C" {
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if (io::on && io::hit(fl & O_CREAT ? ENOSPC : EMFILE)) return -1; return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); if (io::on && io::hit(fl & O_CREAT ? ENOSPC : EMFILE)) return -1; return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int ftruncate(int fd, off_t n) { if (io::hit(ENOSPC)) return -1; return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { if (io::hit(ENOSPC)) return -1; return syscall(SYS_ftruncate, fd, n); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (fd >= 0 && io::hit(ENOMEM)) return MAP_FAILED; return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
int munmap(void *a, size_t n) { io::point(); return syscall(SYS_munmap, a, n); }
int msync(void *a, size_t n, int f) { if (io::hit(EIO)) return -1; (void)a; (void)n; (void)f; return 0; }
int fsync(int fd) { if (io::hit(EIO)) return -1; (void)fd; return 0; }
int rename(const char *a, const char *b) { if (io::hit(EACCES)) return -1; return syscall(SYS_rename, a, b); }
int unlink(const char *a) { if (io::hit(EACCES)) return -1; return syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int f) { if (io::hit(EACCES)) return -1; return syscall(SYS_unlinkat, d, a, f); }
int remove(const char *a) { if (io::hit(EACCES)) return -1; int r = syscall(SYS_unlink, a); return r; }
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2 && io::hit(ENOSPC)) return -1; return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (fd > 2 && io::hit(ENOSPC)) return -1; return syscall(SYS_writev, fd, v, n); }
int close(int fd) { io::point(); return syscall(SYS_close, fd); }
}
