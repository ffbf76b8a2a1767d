// Run code under a tracer which, at system calls of choice, kills it, cuts a
// transfer short, or makes the call fail.
#ifndef VERIF_TRACE_HH
#define VERIF_TRACE_HH
#include "mc.hh"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>

// --- faults ------------------------------------------------------------------
struct Fault {
  int at;               // which system call
  int kind;             // 0 killed before it, 1 killed after half of it, 2 half of it done, 3 fails
  int err;
  std::string name() const
  {
    static const char *K[] = {"killed", "torn", "short", "fails"};
    return std::to_string(at) + " " + K[kind] + (kind == 3 ? std::string(" ") + strerrorname_np(err) : "");
  }
};
struct Call { long nr; std::string path; std::uint64_t len; std::string name; bool writes; };      // writes: changes a file or directory, or opens one to

static const struct { long nr; const char *name; int len; int path; std::vector<int> errs; } SYS[] = {
  {SYS_openat, "openat", -1, 1, {EACCES, EMFILE, ENOSPC, EIO}},
  {SYS_open, "open", -1, 0, {EACCES, EMFILE, ENOSPC, EIO}},
  {SYS_creat, "creat", -1, 0, {EACCES, ENOSPC}},
  {SYS_read, "read", 2, -1, {EIO}},
  {SYS_pread64, "pread", 2, -1, {EIO}},
  {SYS_write, "write", 2, -1, {ENOSPC, EIO}},
  {SYS_pwrite64, "pwrite", 2, -1, {ENOSPC, EIO}},
  {SYS_writev, "writev", -1, -1, {ENOSPC, EIO}},
  {SYS_readv, "readv", -1, -1, {EIO}},
  {SYS_lseek, "lseek", -1, -1, {EIO}},
  {SYS_close, "close", -1, -1, {EIO, ENOSPC}},
  {SYS_fstat, "fstat", -1, -1, {EIO}},
  {SYS_stat, "stat", -1, 0, {EACCES, EIO}},
  {SYS_lstat, "lstat", -1, 0, {EACCES, EIO}},
  {SYS_newfstatat, "newfstatat", -1, 1, {EACCES, EIO}},
  {SYS_statx, "statx", -1, 1, {EACCES, EIO}},
  {SYS_rename, "rename", -1, 0, {EACCES, EIO, EXDEV, ENOSPC}},
  {SYS_renameat, "renameat", -1, 1, {EACCES, EIO, EXDEV, ENOSPC}},
  {SYS_renameat2, "renameat2", -1, 1, {EACCES, EIO, EXDEV, ENOSPC}},
  {SYS_unlink, "unlink", -1, 0, {EACCES, EIO}},
  {SYS_unlinkat, "unlinkat", -1, 1, {EACCES, EIO}},
  {SYS_link, "link", -1, 0, {EACCES, EIO}},
  {SYS_sendfile, "sendfile", 3, -1, {EIO, ENOSPC, EINVAL}},
  {SYS_copy_file_range, "copy_file_range", 4, -1, {EIO, ENOSPC, EINVAL, EXDEV}},
  {SYS_ftruncate, "ftruncate", -1, -1, {EIO, ENOSPC}},
  {SYS_truncate, "truncate", -1, 0, {EIO, ENOSPC}},
  {SYS_fchmod, "fchmod", -1, -1, {EPERM, EIO}},
  {SYS_chmod, "chmod", -1, 0, {EPERM, EIO}},
  {SYS_fchown, "fchown", -1, -1, {EPERM, EIO}},
  {SYS_fsync, "fsync", -1, -1, {EIO}},
  {SYS_fdatasync, "fdatasync", -1, -1, {EIO}},
  {SYS_getdents64, "getdents64", -1, -1, {EIO}},
  {SYS_getcwd, "getcwd", -1, -1, {EACCES}},
  {SYS_mkdir, "mkdir", -1, 0, {EACCES, ENOSPC}},
  {SYS_access, "access", -1, 0, {EACCES, EIO}},
};
static int find(long nr) { for (std::size_t i = 0; i < sizeof SYS / sizeof *SYS; ++i) if (SYS[i].nr == nr) return i; return -1; }

static unsigned long long &arg(user_regs_struct &r, int i)
{ switch (i) { case 0: return r.rdi; case 1: return r.rsi; case 2: return r.rdx; case 3: return r.r10; case 4: return r.r8; default: return r.r9; } }

// the system's own files (character set conversions, locales) are not of interest
static bool outside(const std::string &p)
{
  static std::string here = mc::scratch;
  return p.size() && (p[0] != '/' ? p.find(":[") != std::string::npos : p.compare(0, 5, "/tmp/") && p.compare(0, here.size(), here));
}
static std::string behind(pid_t p, int fd)
{
  char b[4096];
  ssize_t n = readlink(("/proc/" + std::to_string(p) + "/fd/" + std::to_string(fd)).c_str(), b, sizeof b);
  return n < 0 ? "" : std::string(b, n);
}

static std::string peek(pid_t p, unsigned long long a)
{
  std::string s;
  while (s.size() < 4096) {
    errno = 0;
    long w = ptrace(PTRACE_PEEKDATA, p, a, 0);
    if (errno) break;
    for (int i = 0; i < 8; ++i) { char c = char(w >> (8 * i)); if (!c) return s; s += c; }
    a += 8;
  }
  return s;
}

// --- a traced run --------------------------------------------------------------
struct Result {
  enum { done, threw, killed, died } how;
  std::string what;
  std::vector<Call> calls;
  std::set<std::string> created;          // opened for creation
  std::set<std::string> stuck;            // removal was made to fail
  std::vector<std::string> hit;           // faults that happened
};
static struct Shared { int how, rc; char what[500]; } *shared_;       // rc: for the job's use
static const long BEGIN = 0x5ca1ab1e, END = 0x5ca1ab1f;

// `prepare' is run in a process of its own; what it returns is then run traced
typedef std::function<void()> Job;
static Result traced(const std::function<Job()> &prepare, const std::vector<Fault> &faults, bool xdev = false)
{
  if (!shared_) shared_ = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Result R;
  memset(shared_, 0, sizeof *shared_);
  shared_->how = -1;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); abort(); }
  if (!pid) {
    Job job = prepare();
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    syscall(SYS_getpgid, BEGIN);
    try { job(); shared_->how = Result::done; }
    catch (const std::exception &e) { shared_->how = Result::threw; strncpy(shared_->what, e.what(), sizeof shared_->what - 1); }
    syscall(SYS_getpgid, END);
    _exit(0);
  }
  int st;
  if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) { fprintf(stderr, "cannot trace\n"); abort(); }
  ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
  bool on = false, entry = true, killing = false, fake = false, xdone = false;
  int err = 0, n = -1;
  int sig = 0;
  R.how = Result::died;
  for (;;) {
    if (ptrace(PTRACE_SYSCALL, pid, 0, sig)) { kill(pid, SIGKILL); }
    sig = 0;
    if (waitpid(pid, &st, 0) != pid) abort();
    if (WIFEXITED(st) || WIFSIGNALED(st)) break;
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); continue; }
    user_regs_struct r;
    ptrace(PTRACE_GETREGS, pid, 0, &r);
    if (entry) {
      entry = false;
      long nr = r.orig_rax;
      if (nr == SYS_getpgid && (long)r.rdi == BEGIN) { on = true; continue; }
      if (nr == SYS_getpgid && (long)r.rdi == END) { on = false; continue; }
      if (!on) continue;
      int k = find(nr);
      if (k < 0) continue;             // not input, output or the like
      if (outside(SYS[k].path >= 0 ? peek(pid, arg(r, SYS[k].path)) : nr == SYS_getcwd ? "" : behind(pid, r.rdi))) continue;
      Call c{nr, SYS[k].path >= 0 ? peek(pid, arg(r, SYS[k].path)) : "", SYS[k].len >= 0 ? arg(r, SYS[k].len) : 0, SYS[k].name, false};
      switch (nr) {
      case SYS_openat: c.writes = r.rdx & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC); break;
      case SYS_open: c.writes = r.rsi & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC); break;
      case SYS_read: case SYS_pread64: case SYS_readv: case SYS_lseek: case SYS_fstat: case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: case SYS_getdents64: case SYS_getcwd: case SYS_access: break;
      default: c.writes = true;
      }
      ++n;
      if ((nr == SYS_openat && (r.rdx & O_CREAT)) || (nr == SYS_open && (r.rsi & O_CREAT)) || nr == SYS_creat) R.created.insert(c.path);
      R.calls.push_back(c);
      bool ren = nr == SYS_rename || nr == SYS_renameat || nr == SYS_renameat2;
      if (xdev && ren && !xdone) { xdone = true; fake = true; err = EXDEV; }
      for (auto &f : faults) if (f.at == n) {
        R.hit.push_back(c.name);
        if (f.kind == 0) { kill(pid, SIGKILL); R.how = Result::killed; break; }
        if (f.kind == 3) { fake = true; err = f.err; if (nr == SYS_unlink || nr == SYS_unlinkat) R.stuck.insert(c.path); }
        else { arg(r, SYS[k].len) /= 2; ptrace(PTRACE_SETREGS, pid, 0, &r); killing = f.kind == 1; }
      }
      if (fake) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, pid, 0, &r); }
    } else {
      entry = true;
      if (killing) { kill(pid, SIGKILL); R.how = Result::killed; killing = false; continue; }
      if (fake) { r.rax = -err; ptrace(PTRACE_SETREGS, pid, 0, &r); fake = false; }
    }
  }
  if (R.how != Result::killed) {
    if (WIFEXITED(st) && shared_->how >= 0) { R.how = shared_->how == Result::done ? Result::done : Result::threw; R.what = shared_->what; }
    else R.what = WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit";
  }
  mc::transition(R.calls.size());
  return R;
}
#endif
