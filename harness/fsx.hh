// Files in the shard's own directory
#ifndef VERIF_FSX_HH
#define VERIF_FSX_HH
#include "mc.hh"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/stat.h>
#include <unistd.h>

namespace fsx {
  inline bool slurp(const std::string &p, std::string &out)
  {
    out.clear();
    int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) { ::close(fd); return false; }
    out.resize(st.st_size);
    std::size_t n = 0;
    while (n < out.size()) { ssize_t k = ::read(fd, &out[n], out.size() - n); if (k <= 0) break; n += k; }
    out.resize(n);
    ::close(fd);
    return true;
  }
  inline std::string get(const std::string &p) { std::string s; slurp(p, s); return s; }
  inline void put(const std::string &p, const std::string &s)
  {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { perror(p.c_str()); abort(); }
    std::size_t n = 0;
    while (n < s.size()) { ssize_t k = ::write(fd, &s[n], s.size() - n); if (k <= 0) abort(); n += k; }
    ::close(fd);
  }
  // relative path -> contents ("/" for a directory)
  inline void list(const std::string &d, std::map<std::string, std::string> &out, const std::string &pre = "")
  {
    DIR *D = opendir(d.c_str());
    if (!D) return;
    while (dirent *e = readdir(D)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string s;
      struct stat st;
      if (lstat((d + "/" + n).c_str(), &st)) continue;
      if (S_ISDIR(st.st_mode)) { out[pre + n] = "/"; list(d + "/" + n, out, pre + n + "/"); }
      else { slurp(d + "/" + n, s); out[pre + n] = s; }
    }
    closedir(D);
  }
  inline std::map<std::string, std::string> list(const std::string &d) { std::map<std::string, std::string> m; list(d, m); return m; }
  // Only ever what is in the directory the driver made for us
  inline void wipe(const std::string &d)
  {
    if (mc::scratch.empty() || d.compare(0, mc::scratch.size(), mc::scratch)) abort();
    auto m = list(d);
    for (auto p = m.rbegin(); p != m.rend(); ++p) {
      std::string f = d + "/" + p->first;
      if (p->second == "/" && !rmdir(f.c_str())) continue;
      unlink(f.c_str());
    }
  }
  inline std::string fresh(const std::string &name)
  {
    std::string d = mc::scratch + "/" + name;
    if (mkdir(d.c_str(), 0755)) wipe(d);
    return d;
  }
}
#endif
