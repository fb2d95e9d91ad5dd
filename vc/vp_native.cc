// Native side of the contract language: runs VP_CONTRACT functions as
// executable checks, on replayed values or on generated ones.
//   runner list
//   runner replay CONTRACT FILE            exit 0 holds / 3 violated / 4 precondition not met
//   runner search CONTRACT SEED SECONDS OUT   exit 0 / 3 (values written to OUT)
// A violation is a failed vp_assert, a failed CHECK/DCHECK, a sanitizer report or a crash.
#include "vp.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
namespace {
std::map<std::string, void (*)()>& Reg() { static auto* m = new std::map<std::string, void (*)()>; return *m; }
struct Discard {};
struct Rec { bool region; uint64_t v; uint64_t n; std::vector<std::vector<uint64_t>> rows; };
struct Shared { volatile uint64_t seed, runs, discards, asserts, covers; char label[256]; };
Shared* sh;
bool replay_mode = false;
std::map<std::string, Rec> given;
std::map<std::string, int> occ;
std::mt19937_64 rng;
FILE* dump = nullptr;
std::vector<void*> to_free;
int profile = 0;
std::string Key(const char* n) { return std::string(n) + "#" + std::to_string(occ[n]++); }
uint64_t Rnd(uint64_t n) { return n ? rng() % n : 0; }
uint64_t Mask(unsigned bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
uint64_t GenScalar(unsigned bits, unsigned kind) {
  uint64_t m = Mask(bits);
  if (kind == 3) return Rnd(2);
  if (kind == 2) {
    double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, 3.0, -2.0, 1e-320, 1e10, -1e10, 2147483647.0, -2147483648.0,
                   2147483648.0, 9223372036854775807.0, -9223372036854775808.0, 4294967296.0, 1e300, -1e300, 1e-40, 16777217.0, 9007199254740993.0};
    switch (Rnd(5)) {
      case 0: { double nan = __builtin_nan(""), inf = __builtin_inf(); double c[] = {nan, -nan, inf, -inf, nan};
        double x = c[Rnd(5)]; if (bits == 32) { float f = (float)x; uint32_t r; memcpy(&r, &f, 4); return r; } uint64_t r; memcpy(&r, &x, 8); return r; }
      case 1: return rng() & m;
      case 2: { double x = (double)(int64_t)Rnd(21) - 10; if (Rnd(3) == 0) x /= 4; if (bits == 32) { float f = (float)x; uint32_t r; memcpy(&r, &f, 4); return r; } uint64_t r; memcpy(&r, &x, 8); return r; }
      default: { double x = sp[Rnd(sizeof(sp) / 8)]; uint64_t r = 0; if (bits == 32) { float f = (float)x; uint32_t q; memcpy(&q, &f, 4); r = q; } else memcpy(&r, &x, 8);
        if (Rnd(3) == 0) r += Rnd(5) - 2; return r & m; }
    }
  }
  switch (Rnd(6)) {
    case 0: return (Rnd(9) - 4) & m;
    case 1: { uint64_t c[] = {m, m >> 1, (m >> 1) + 1, 0, 1, (m >> 1) - 1, (m >> 1) + 2, m - 1}; return c[Rnd(8)]; }
    case 2: return ((1ull << Rnd(bits)) + Rnd(5) - 2) & m;
    case 3: return (rng() >> Rnd(64)) & m;
    case 4: return Rnd(40) & m;
    default: return rng() & m;
  }
}
uint64_t Take(const std::string& k, const std::function<uint64_t()>& gen) {
  uint64_t v;
  if (replay_mode) { auto it = given.find(k); v = it == given.end() ? 0 : it->second.v; }
  else v = gen();
  if (dump) { fprintf(dump, "v %s %llu\n", k.c_str(), (unsigned long long)v); fflush(dump); }
  return v;
}
}  // namespace
void vp_register(const char* name, void (*fn)()) { Reg()[name] = fn; }
uint64_t vp_native_random(uint64_t n) {
  if (!dump && !replay_mode) return Rnd(n);
  return Take(Key("random"), [&] { return Rnd(n); });
}
extern "C" {
uint64_t vp_nd(const char* name, unsigned bits, unsigned kind) {
  uint64_t v = Take(Key(name), [&] { return GenScalar(bits, kind); }) & Mask(bits);
  if (kind == 1 && bits < 64 && (v >> (bits - 1)) & 1) v |= ~Mask(bits);
  return v;
}
uint64_t vp_nd_range(const char* name, uint64_t lo, uint64_t hi) {
  uint64_t v = Take(Key(name), [&]() -> uint64_t {
    if ((int64_t)hi < (int64_t)lo) throw Discard{};
    uint64_t n = hi - lo + 1;
    switch (Rnd(4)) { case 0: return lo + Rnd(n < 4 && n ? n : 4); case 1: return hi - Rnd(n < 4 && n ? n : 4); default: return n ? lo + Rnd(n) : rng(); }
  });
  if ((int64_t)v < (int64_t)lo || (int64_t)v > (int64_t)hi) throw Discard{};
  return v;
}
uint64_t vp_nd_size(const char* name, uint64_t hi, uint64_t nhi) {
  uint64_t v = Take(Key(name), [&]() -> uint64_t {
    switch (Rnd(4)) { case 0: return Rnd((nhi < 3 ? nhi : 3) + 1); case 1: return nhi - Rnd((nhi < 2 ? nhi : 2) + 1); default: return Rnd(nhi + 1); }
  });
  if (v > hi) throw Discard{};
  return v;
}
void* vp_region(const char* name, uint64_t n, uint64_t stride, const unsigned* g, unsigned ng) {
  std::string k = Key(name);
  Rec r; bool have = false;
  if (replay_mode) { auto it = given.find(k); if (it != given.end()) { r = it->second; have = true; } if (n > 50000000) throw Discard{}; }
  else if (n > 1000000) throw Discard{};
  if (n > (uint64_t{1} << 29) / (stride ? stride : 1)) throw Discard{};  // not replayable here
  char* p = static_cast<char*>(malloc(n * stride ? n * stride : 1));
  if (n * stride == 0) { free(p); p = static_cast<char*>(malloc(16)) ; p += 16; to_free.push_back(p - 16); }
  else to_free.push_back(p);
  memset(p, 0, n * stride);
  unsigned mode = replay_mode ? 9 : Rnd(7);
  if (dump) fprintf(dump, "r %s %llu %u", k.c_str(), (unsigned long long)n, ng);
  std::vector<uint64_t> pool;
  for (int i = 0; i < 3; ++i) pool.push_back(GenScalar(g[1] * 8, g[2]));
  for (uint64_t i = 0; i < n; ++i)
    for (unsigned j = 0; j < ng; ++j) {
      unsigned off = g[3 * j], w = g[3 * j + 1], kind = g[3 * j + 2];
      uint64_t v = 0;
      if (replay_mode) { if (have && i < r.rows.size() && j < r.rows[i].size()) v = r.rows[i][j]; else if (have && !r.rows.empty()) v = 0; }
      else switch (mode) {
        case 0: v = rng(); break;
        case 1: v = Rnd(4) ? 0 : rng(); break;
        case 2: v = Rnd(4) ? ~0ull : rng(); break;
        case 3: v = Rnd(5); break;
        case 4: v = (rng() & rng() & rng()); break;
        case 5: v = pool[Rnd(3)]; break;
        default: v = GenScalar(w * 8, kind);
      }
      if (kind == 3) v &= 1;
      if (kind == 2 && !replay_mode && mode != 0) v = GenScalar(w * 8, kind);
      if (dump) fprintf(dump, " %llx", (unsigned long long)(v & Mask(w * 8)));
      memcpy(p + i * stride + off, &v, w);
    }
  if (dump) { fprintf(dump, "\n"); fflush(dump); }
  return p;
}
void* vp_alloc(uint64_t n) {
  if (n > (uint64_t{1} << 29)) throw Discard{};  // not replayable here
  char* p = static_cast<char*>(malloc(n ? n : 16));
  memset(p, 0xA5, n ? n : 16); to_free.push_back(p);
  return n ? p : p + 16;
}
void vp_assume(bool c) { if (!c) throw Discard{}; }
void vp_assert(bool c, const char* label) {
  sh->asserts = sh->asserts + 1;
  if (!c) { snprintf(sh->label, sizeof sh->label, "%s", label); _exit(42); }
}
void vp_cover(const char*) { sh->covers = sh->covers + 1; }
void vp_opt(const char*) {}
void vp_next_new(void*) {}
void vp_bias(void*, uint64_t, unsigned) {}
void vp_cand(unsigned, bool (*)(const void*, uint64_t, uint64_t, uint64_t), const void*, const void*) {}
void vp_lemma(bool (*)(const void*, uint64_t, uint64_t, uint64_t), const void*) {}
void vp_forall(unsigned arity, const void*, uint64_t n, bool (*fn)(const void*, uint64_t, uint64_t, uint64_t), const void* ctx) {
  if (arity == 1) { for (uint64_t i = 0; i < n; ++i) if (!fn(ctx, i, 0, 0)) throw Discard{}; }
  else if (n <= 3000) { for (uint64_t j = 1; j < n; ++j) for (uint64_t i = 0; i < j; ++i) if (!fn(ctx, i, j, 0)) throw Discard{}; }
  else for (uint64_t j = 1; j < n; ++j) if (!fn(ctx, j - 1, j, 0)) throw Discard{};
}
[[noreturn]] void __vp_check_fail() {
  snprintf(sh->label, sizeof sh->label, "CHECK/DCHECK failure"); _exit(42);
}
}
namespace {
void RunOnce(void (*fn)()) {
  alarm(25);
  occ.clear();
  try { fn(); sh->runs = sh->runs + 1; } catch (Discard&) { sh->discards = sh->discards + 1; }
  for (void* p : to_free) free(p);
  to_free.clear();
}
void Limits() {
  rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
void Quiet(const char* file) { FILE* f = freopen(file, "w", stderr); (void)f; setvbuf(stderr, nullptr, _IONBF, 0); }
int Child(const std::function<void()>& f, const char* errfile, int timeout) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { Limits(); Quiet(errfile); alarm(timeout); f(); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return 128 + WTERMSIG(st);
}
void Describe(int rc, const char* errfile) {
  if (rc == 42) { printf("violated: %s\n", sh->label); return; }
  printf("violated: %s\n", rc == 128 + SIGALRM ? "does not terminate (time limit)" : rc > 128 ? ("crash, signal " + std::to_string(rc - 128)).c_str() : "sanitizer report / abnormal exit");
  std::ifstream in(errfile); std::string l; int n = 0;
  while (n < 12 && std::getline(in, l)) { printf("  | %s\n", l.c_str()); ++n; }
}
}  // namespace
int main(int argc, char** argv) {
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (auto& [k, v] : Reg()) printf("%s\n", k.c_str()); return 0; }
  if (argc < 4) return 2;
  auto it = Reg().find(argv[2]);
  if (it == Reg().end()) return 2;
  auto fn = it->second;
  std::string err = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/vpnat." + std::to_string(getpid());
  int ret = 0;
  if (cmd == "replay") {
    std::ifstream in(argv[3]); std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line); char t; std::string k; if (!(is >> t >> k)) continue;
      Rec r{}; if (t == 'v') { is >> r.v; } else { unsigned ng; is >> r.n >> ng; r.region = true; std::string tok; std::vector<uint64_t> row;
        while (is >> tok) { row.push_back(std::stoull(tok, nullptr, 16)); if (row.size() == ng) { r.rows.push_back(row); row.clear(); } } }
      given[k] = r;
    }
    replay_mode = true;
    int rc = Child([&] { RunOnce(fn); }, err.c_str(), 60);
    if (rc) { Describe(rc, err.c_str()); ret = 3; }
    else if (sh->discards) { printf("precondition not met\n"); ret = 4; }
    else printf("contract holds on these values\n");
  } else if (cmd == "search") {
    uint64_t seed = strtoull(argv[3], nullptr, 10) * 1000003ull; double secs = atof(argv[4]);
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    sh->seed = seed;
    int rc = Child([&] { while (el() < secs) { sh->seed = sh->seed + 1; rng.seed(sh->seed); RunOnce(fn); } }, err.c_str(), (int)secs + 60);
    if (rc) {
      uint64_t s = sh->seed;
      Child([&] { rng.seed(s); dump = fopen(argv[5], "w"); RunOnce(fn); }, err.c_str(), 60);
      Describe(rc, err.c_str()); ret = 3;
    }
    printf("stats runs=%llu discards=%llu asserts=%llu\n", (unsigned long long)sh->runs, (unsigned long long)sh->discards, (unsigned long long)sh->asserts);
  }
  unlink(err.c_str());
  return ret;
}
// Third-party hash used by fingerprints; not installed here, any good mixing
// function serves (contracts never depend on particular values).
#include "cityhash/city.h"
namespace third_party_cityhash {
static uint64_t VpMix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31); }
uint64 CityHash64WithSeed(const char* p, size_t n, uint64 seed) {
  uint64_t h = VpMix(seed + 0x9e3779b97f4a7c15ull * (n + 1));
  for (size_t i = 0; i < n; ++i) h = VpMix(h * 31 + static_cast<unsigned char>(p[i]) + 1);
  return h;
}
uint64 CityHash64(const char* p, size_t n) { return CityHash64WithSeed(p, n, 77); }
uint64 CityHash64WithSeeds(const char* p, size_t n, uint64 a, uint64 b) { return CityHash64WithSeed(p, n, VpMix(a) + 3 * b); }
uint128 CityHash128WithSeed(const char* p, size_t n, uint128 s) {
  return {CityHash64WithSeed(p, n, VpMix(s.first) + 3 * s.second), CityHash64WithSeed(p, n, VpMix(s.first + 5) + 7 * s.second + 1)};
}
uint128 CityHash128(const char* p, size_t n) { return CityHash128WithSeed(p, n, {1, 2}); }
uint32 CityHash32(const char* p, size_t n) { return CityHash64(p, n); }
}  // namespace third_party_cityhash
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1:max_allocation_size_mb=4096"; }
