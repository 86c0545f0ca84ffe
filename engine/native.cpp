// Native runtime of the contract language: replays a tape, or searches with a PRNG.
//   <bin> list
//   <bin> replay UNIT TAPEFILE     (lines: name hex)
//   <bin> search UNIT SEED ITERS SECONDS STATEFILE
// exit: 0 no violation; 1 contract violated (prints VP-FAIL label); 77 assumption not met (replay); ASan/UBSan abort otherwise
#include "vp.hpp"
#include <chrono>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <unistd.h>
#include <vector>

extern "C" {
extern const vp_unit vp_table[];
extern const unsigned vp_table_size;
}

static std::vector<std::pair<std::string, std::vector<unsigned char>>> tape;
static std::size_t pos;
static bool searching;
static jmp_buf again;
static unsigned long long rng;
static const char *filter = "";

static unsigned long long next() {
  rng += 0x9e3779b97f4a7c15ull;
  unsigned long long z = rng;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static void draw(unsigned char *p, std::size_t n, bool word) {
  if (word) {
    unsigned long long v = next();
    switch (next() % 6) {
    case 0: v = next() % 3; break;
    case 1: v = ~0ull - next() % 3; break;
    case 2: v = (1ull << (8 * n - 1) % 64) - next() % 3; break;
    case 3: v = next() % 300; break;
    default: break;
    }
    for (std::size_t i = 0; i < n; ++i) {
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
      p[i] = static_cast<unsigned char>(i < 8 ? v >> 8 * i : next());
#else
      p[n - 1 - i] = static_cast<unsigned char>(i < 8 ? v >> 8 * i : next());
#endif
    }
  } else {
    for (std::size_t i = 0; i < n; ++i) {
      unsigned long long r = next();
      p[i] = static_cast<unsigned char>(r % 4 == 0 ? (r >> 8) % 4 : r % 4 == 1 ? 255 - (r >> 8) % 3 : r >> 8);
    }
  }
}

static void get(void *q, std::size_t n, const char *name, bool word) {
  unsigned char *p = static_cast<unsigned char *>(q);
  if (searching) { draw(p, n, word); return; }
  if (pos < tape.size() && tape[pos].second.size() == n) { std::memcpy(p, tape[pos].second.data(), n); }
  else if (pos < tape.size()) { std::printf("VP-DESYNC %s expected %s\n", name, tape[pos].first.c_str()); std::fflush(stdout); std::_Exit(78); }
  else std::memset(p, 0, n);
  ++pos;
}

extern "C" {
void vp_nondet(void *p, std::size_t n, const char *name) { get(p, n, name, true); }
void vp_nondet_bytes(void *p, std::size_t n, const char *name) { get(p, n, name, false); }
void vp_assume(bool c) {
  if (c) return;
  if (searching) longjmp(again, 1);
  std::printf("VP-ASSUME\n");
  std::fflush(stdout);
  std::_Exit(77);
}
void vp_assert(bool c, const char *label) {
  if (c) return;
  // labels "Pnn ..." belong to one property only
  if (*filter && label[0] == 'P' && label[1] >= '0' && label[1] <= '9') { // the properties concerned: "Pnn,Pnn text"
    const char *l = label;
    while (std::strncmp(l, filter, 3) != 0 && l[3] == ',') l += 4;
    if (std::strncmp(l, filter, 3) != 0) return;
  }
  std::printf("VP-FAIL %s\n", label);
  std::fflush(stdout);
  std::_Exit(1);
}
void vp_cover(const char *) {}
std::size_t vp_split(std::size_t v) { return v; }
bool vp_symbolic() { return false; }
void vp_replace(const void *, const void *) {}
void vp_frame_begin() {}
void vp_frame_allow(const void *, std::size_t) {}
void vp_frame_end(const char *) {}
}

int main(int argc, char **argv) {
  if (const char *f = std::getenv("VP_PROP")) filter = f;
  if (argc < 2) return 2;
  std::string mode = argv[1];
  if (mode == "list") {
    for (unsigned i = 0; i < vp_table_size; ++i)
      std::printf("%u %s %d %s\n", i, vp_table[i].props, vp_table[i].kind, vp_table[i].name);
    return 0;
  }
  unsigned u = static_cast<unsigned>(std::atoi(argv[2]));
  if (u >= vp_table_size) return 2;
  if (mode == "replay") {
    FILE *f = std::fopen(argv[3], "r");
    if (!f) return 2;
    static char name[4096], hex[1 << 16];
    while (std::fscanf(f, "%4095s %65535s", name, hex) == 2) {
      std::vector<unsigned char> v;
      if (std::strcmp(hex, "-") != 0)
        for (char *p = hex; p[0] && p[1]; p += 2) {
          char b[3] = {p[0], p[1], 0};
          v.push_back(static_cast<unsigned char>(std::strtoul(b, nullptr, 16)));
        }
      tape.emplace_back(name, v);
    }
    vp_table[u].fn();
    std::printf("VP-OK\n");
    return 0;
  }
  if (mode == "search") {
    searching = true;
    unsigned long long seed = std::strtoull(argv[3], nullptr, 10);
    unsigned long long iters = std::strtoull(argv[4], nullptr, 10);
    double secs = std::atof(argv[5]);
    int fd = ::open(argv[6], O_CREAT | O_RDWR | O_TRUNC, 0600);
    auto t0 = std::chrono::steady_clock::now();
    static volatile unsigned long long k, done;
    for (k = 0; k < iters; ++k) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
      unsigned long long cur = seed + k;
      if (::pwrite(fd, &cur, sizeof cur, 0) < 0) return 2;
      rng = cur * 0x2545f4914f6cdd1dull + 1;
      if (setjmp(again) == 0) { vp_table[u].fn(); ++done; }
    }
    std::printf("VP-OK %llu executions\n", static_cast<unsigned long long>(done));
    return 0;
  }
  return 2;
}
