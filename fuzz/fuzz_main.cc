// libFuzzer target: the whole program, in process. The first bytes choose the options, the rest is
// standard input. Findings are only believed after they are confirmed in a fresh process.
#include <fcntl.h>
#include <getopt.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>

int redsea_main(int argc, char** argv);

// Must agree with decode_fuzz() in checks/c01.py
static std::vector<std::string> options(std::uint8_t a, std::uint8_t b, std::uint8_t c) {
  // raw MPX is slow: seldom
  if ((a & 3) == 3 && (c & 15) != 0)
    a &= 0xFC;
  std::vector<std::string> o{"redsea"};
  static const char* const fmt[] = {"hex", "tef", "bits", "mpx"};
  o.push_back("-i");
  o.push_back(fmt[a & 3]);
  if (a & 4)
    o.push_back("-p");
  if (a & 8)
    o.push_back("-R");
  if (a & 16)
    o.push_back("-u");
  if (a & 32)
    o.push_back("-E");
  if ((a & 64) && ((a & 3) == 0 || (a & 3) == 3))
    o.push_back("-s");
  if (a & 128) {
    o.push_back("-o");
    o.push_back("hex");
  }
  if (b & 1)
    o.push_back("--no-fec");
  if (b & 2) {
    o.push_back("-t");
    o.push_back("%c %f");
  }
  if (b & 4)
    o.push_back("-e");
  if ((a & 3) == 3) {
    static const char* const rate[] = {"171000", "192k", "250000", "1M"};
    o.push_back("-r");
    o.push_back(rate[b >> 4 & 3]);
    if ((b & 8) && !(a & 64)) {
      o.push_back("-c");
      o.push_back(std::to_string(1 + (c >> 4) * 2));
    }
  }
  return o;
}

static int g_null = -1;

struct NullBuf : std::streambuf {
  int overflow(int c) override {
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char*, std::streamsize n) override {
    return n;
  }
};

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  g_null = open("/dev/null", O_RDWR);
  static NullBuf null;
  std::cerr.rdbuf(&null);
  if (const char* d = getenv("FUZZ_CWD"))
    if (chdir(d) != 0)
      abort();
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
  if (size < 4)
    return 0;
  std::vector<std::string> args = options(data[0], data[1], data[2]);
  if ((data[0] & 3) == 3 && (data[2] & 15) == 0 && size > 20000)
    return 0;
  std::vector<char*> argv;
  for (std::string& s : args) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  // raw MPX input closes descriptors 0 and 1
  dup2(g_null, 0);
  dup2(g_null, 1);
  int fd = memfd_create("in", 0);
  if (fd < 0)
    return 0;
  if (write(fd, data + 3, size - 3) != static_cast<ssize_t>(size - 3)) {
    close(fd);
    return 0;
  }
  lseek(fd, 0, SEEK_SET);
  dup2(fd, 0);
  close(fd);
  __fpurge(stdin);
  clearerr(stdin);
  std::cin.clear();
  std::cout.clear();
  std::cerr.clear();
  optind = 0;
  errno  = 0;
  redsea_main(static_cast<int>(argv.size()) - 1, argv.data());
  return 0;
}
