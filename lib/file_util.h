// Small file helpers of the harnesses, independent of the code under test.
#ifndef VERIF_LIB_FILE_UTIL_H_
#define VERIF_LIB_FILE_UTIL_H_
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <string>
#include <vector>

#include "pbt.h"

namespace fu {
constexpr const char* kAbsent = "<absent>";
inline std::string slurp(const std::string& p) {
  std::string s;
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return kAbsent;
  char buf[65536];
  for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) s.append(buf, size_t(n));
  close(fd);
  return s;
}
inline void put(const std::string& p, const std::string& s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  for (size_t k = 0; k < s.size();) {
    ssize_t n = write(fd, s.data() + k, s.size() - k);
    if (n <= 0) abort();
    k += size_t(n);
  }
  close(fd);
}
inline std::vector<std::string> ls(const std::string& dir) {
  std::vector<std::string> v;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") v.push_back(n);
    }
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}
inline int open_fds() { return int(ls("/proc/self/fd").size()); }
struct Dir {
  std::string path;
  // |far|: on another file system, if there is one.
  explicit Dir(bool far = false) {
    static int n = 0;
    path = (far && !pbt::far_scratch().empty() ? pbt::far_scratch() : pbt::scratch()) + "/d" + std::to_string(getpid()) + "_" + std::to_string(n++);
    mkdir(path.c_str(), 0755);
  }
  ~Dir() { std::error_code ec; std::filesystem::remove_all(path, ec); }
};
// Memory shared with forked children.
template <class T>
struct Shared {
  T* p = static_cast<T*>(mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  ~Shared() { munmap(p, sizeof(T)); }
  T* operator->() const { return p; }
};
inline std::string where(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return pbt::strf("sizes %zu and %zu, first difference at %zu", a.size(), b.size(), i);
}
// |n| bytes that differ for every |key|.
inline std::string noise(size_t n, uint64_t key) {
  std::string s(n, '\0');
  for (size_t i = 0; i < n; i += 8) {
    uint64_t h = pbt::hash64(key * 1000003 + i);
    memcpy(&s[i], &h, n - i < 8 ? n - i : 8);
  }
  return s;
}
}  // namespace fu
#endif
