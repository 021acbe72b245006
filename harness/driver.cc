// Fork server: runs the program's real main() (renamed redsea_main) once per request in a forked
// child, with the given argv, environment, working directory, standard input and clock.
//
// Request (all integers little endian u32 unless noted, strings are u32 length + bytes):
//   timeout_ms, n_args, args..., n_env, "K=V"..., cwd ("" = keep), n_clock, i64 ns..., stdin bytes
// Response: i32 wait status (-1 = timed out), stdout bytes, stderr bytes
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

int redsea_main(int argc, char** argv);

// ---- Fake clock: reading i of the wall clock returns clock_values[min(i, n-1)] -----------------
// Or, if the list begins with INT64_MIN, a clock that runs with the input:
//   INT64_MIN, start ns, picoseconds per input byte, (byte position, jump in ns)...
static std::vector<std::int64_t> g_clock;
static std::size_t g_clock_pos = 0;

static bool fakeNow(std::int64_t& ns) {
  if (g_clock.empty())
    return false;
  if (g_clock[0] == INT64_MIN && g_clock.size() >= 3) {
    const std::int64_t pos = lseek(0, 0, SEEK_CUR);
    ns                     = g_clock[1] + pos * g_clock[2] / 1000;
    for (std::size_t i = 3; i + 1 < g_clock.size(); i += 2)
      if (pos >= g_clock[i])
        ns += g_clock[i + 1];
    return true;
  }
  ns = g_clock[g_clock_pos];
  if (g_clock_pos + 1 < g_clock.size())
    g_clock_pos++;
  return true;
}

static void toTimespec(std::int64_t ns, struct timespec* ts) {
  std::int64_t s = ns / 1000000000, r = ns % 1000000000;
  if (r < 0) {
    r += 1000000000;
    s--;
  }
  ts->tv_sec  = s;
  ts->tv_nsec = r;
}

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  std::int64_t ns;
  if (id == CLOCK_REALTIME && fakeNow(ns)) {
    toTimespec(ns, ts);
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec  = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}

// ---- Protocol ------------------------------------------------------------------------------------
static bool readAll(int fd, void* p, std::size_t n) {
  auto* c = static_cast<char*>(p);
  while (n > 0) {
    const ssize_t r = read(fd, c, n);
    if (r <= 0)
      return false;
    c += r;
    n -= static_cast<std::size_t>(r);
  }
  return true;
}
static void writeAll(int fd, const void* p, std::size_t n) {
  const auto* c = static_cast<const char*>(p);
  while (n > 0) {
    const ssize_t r = write(fd, c, n);
    if (r <= 0)
      _exit(3);
    c += r;
    n -= static_cast<std::size_t>(r);
  }
}
static std::uint32_t readU32(int fd, bool& ok) {
  std::uint32_t v = 0;
  ok              = ok && readAll(fd, &v, 4);
  return v;
}
static std::string readStr(int fd, bool& ok) {
  const std::uint32_t n = readU32(fd, ok);
  std::string s(ok ? n : 0, '\0');
  ok = ok && readAll(fd, &s[0], s.size());
  return s;
}
static void sendFile(int out, int fd) {
  const off_t size      = lseek(fd, 0, SEEK_END);
  constexpr off_t kMax  = 256 << 20;
  const std::uint32_t n = static_cast<std::uint32_t>(size > kMax ? kMax : size);
  writeAll(out, &n, 4);
  lseek(fd, 0, SEEK_SET);
  std::vector<char> buf(1 << 16);
  std::uint32_t left = n;
  while (left > 0) {
    const ssize_t r = read(fd, buf.data(), left < buf.size() ? left : buf.size());
    if (r <= 0)
      _exit(3);
    writeAll(out, buf.data(), static_cast<std::size_t>(r));
    left -= static_cast<std::uint32_t>(r);
  }
}

int main() {
  signal(SIGPIPE, SIG_IGN);
  // Keep the protocol away from fds 0-2
  const int in  = fcntl(0, F_DUPFD_CLOEXEC, 10);
  const int out = fcntl(1, F_DUPFD_CLOEXEC, 10);
  const int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0);
  dup2(nul, 1);

  while (true) {
    bool ok                  = true;
    const std::uint32_t tmo  = readU32(in, ok);
    const std::uint32_t narg = readU32(in, ok);
    std::vector<std::string> args;
    for (std::uint32_t i = 0; ok && i < narg; i++) args.push_back(readStr(in, ok));
    const std::uint32_t nenv = readU32(in, ok);
    std::vector<std::string> env;
    for (std::uint32_t i = 0; ok && i < nenv; i++) env.push_back(readStr(in, ok));
    const std::string cwd    = readStr(in, ok);
    const std::uint32_t nclk = readU32(in, ok);
    std::vector<std::int64_t> clk(ok ? nclk : 0);
    for (auto& c : clk) ok = ok && readAll(in, &c, 8);
    const std::string input = readStr(in, ok);
    if (!ok)
      return 0;

    const int fin  = memfd_create("in", MFD_CLOEXEC);
    const int fout = memfd_create("out", MFD_CLOEXEC);
    const int ferr = memfd_create("err", MFD_CLOEXEC);
    writeAll(fin, input.data(), input.size());
    lseek(fin, 0, SEEK_SET);

    const pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      dup2(fin, 0);
      dup2(fout, 1);
      dup2(ferr, 2);
      close(in);
      close(out);
      struct rlimit rl {512u << 20, 512u << 20};
      setrlimit(RLIMIT_FSIZE, &rl);
      signal(SIGPIPE, SIG_DFL);
      if (!cwd.empty() && chdir(cwd.c_str()) != 0)
        _exit(97);
      for (auto& e : env) {
        const auto eq = e.find('=');
        setenv(e.substr(0, eq).c_str(), e.c_str() + eq + 1, 1);
      }
      tzset();
      g_clock = clk;
      std::vector<char*> argv;
      for (auto& a : args) argv.push_back(&a[0]);
      argv.push_back(nullptr);
      exit(redsea_main(static_cast<int>(args.size()), argv.data()));
    }

    // Wait with a time limit
    int status        = 0;
    bool timed_out    = false;
    std::uint32_t t   = 0;
    useconds_t step   = 50;
    std::uint64_t us  = 0;
    const int pidfd   = static_cast<int>(syscall(SYS_pidfd_open, pid, 0));
    if (pidfd >= 0) {
      struct pollfd pfd {pidfd, POLLIN, 0};
      if (poll(&pfd, 1, static_cast<int>(tmo)) == 0)
        timed_out = true;
      close(pidfd);
    } else {
      while (waitid(P_PID, static_cast<id_t>(pid), nullptr, WEXITED | WNOHANG | WNOWAIT) == 0) {
        siginfo_t si{};
        waitid(P_PID, static_cast<id_t>(pid), &si, WEXITED | WNOHANG | WNOWAIT);
        if (si.si_pid == pid)
          break;
        usleep(step);
        us += step;
        if (step < 2000)
          step *= 2;
        t = static_cast<std::uint32_t>(us / 1000);
        if (t > tmo) {
          timed_out = true;
          break;
        }
      }
    }
    if (timed_out)
      kill(pid, SIGKILL);
    waitpid(pid, &status, 0);
    const std::int32_t st = timed_out ? -1 : status;
    writeAll(out, &st, 4);
    sendFile(out, fout);
    sendFile(out, ferr);
    close(fin);
    close(fout);
    close(ferr);
  }
}
