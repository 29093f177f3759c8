// Text printed to stdout while a function runs.
#pragma once
#include "sut.hpp"
#include <sys/syscall.h>
namespace sut {
template <class F> inline std::string capture(F f) {
    static int fd = -1; static pid_t owner = 0; if (owner != getpid()) { fd = (int)syscall(SYS_memfd_create, "out", 0); owner = getpid(); }
    if (fd < 0) ex::fail("no memfd");
    fflush(stdout); if (ftruncate(fd, 0)) ex::fail("ftruncate"); lseek(fd, 0, SEEK_SET); int old = ::dup(1); dup2(fd, 1);
    try { f(); } catch (...) { fflush(stdout); dup2(old, 1); close(old); throw; }
    fflush(stdout); dup2(old, 1); close(old); long n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); if (pread(fd, &s[0], (size_t)n, 0) != n) ex::fail("pread"); return s;
}
} // namespace sut
