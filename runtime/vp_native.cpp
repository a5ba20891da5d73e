// Native replay: values come from the file named by VP_REPLAY (one "bits value name" per line, in order); VP_ENTRY names the harness.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <dlfcn.h>
#include <sys/resource.h>
static std::ifstream& in() { static std::ifstream f(std::getenv("VP_REPLAY") ? std::getenv("VP_REPLAY") : "/dev/null"); return f; }
static std::uint64_t next() { unsigned b = 64; std::uint64_t v = 0; std::string nm; if (!(in() >> b >> v)) return 0; std::getline(in(), nm); return v; }
extern "C" {
std::uint64_t vp_sym(unsigned bits, const char*) { std::uint64_t v = next(); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
std::uint64_t vp_choose(std::uint64_t n, const char*) { std::uint64_t v = next(); return n ? v % n : 0; }
std::uint64_t vp_conc(std::uint64_t v) { return v; }
void vp_assume(bool c) { if (!c) { std::fprintf(stderr, "VP: assumption not met\n"); std::fflush(stderr); std::_Exit(0); } }
void vp_check(bool c, const char* m) { if (!c) { std::fprintf(stderr, "VP: CHECK FAILED: %s\n", m); std::fflush(stderr); std::_Exit(1); } }
void vp_fail(const char* m) { std::fprintf(stderr, "VP: CHECK FAILED: %s\n", m); std::fflush(stderr); std::_Exit(1); }
void vp_cover(const char* m) { std::fprintf(stderr, "VP: cover %s\n", m); }
void vp_expect_stop() { std::signal(SIGABRT, [](int) { std::_Exit(0); }); }
int vp_thorough() { const char* t = std::getenv("VP_THOROUGH"); return t && *t == '1'; }
}
int main() {
  rlimit rl{}; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  const char* e = std::getenv("VP_ENTRY"); void (*f)() = e ? (void (*)())dlsym(RTLD_DEFAULT, e) : nullptr;
  if (!f) { std::fprintf(stderr, "VP: no entry\n"); return 0; }
  try { f(); } catch (std::exception const& x) { std::fprintf(stderr, "VP: uncaught exception %s: %s\n", typeid(x).name(), x.what()); std::fflush(stderr); std::_Exit(1); } catch (...) { std::fprintf(stderr, "VP: uncaught exception\n"); std::fflush(stderr); std::_Exit(1); }
  std::fflush(stderr); std::_Exit(0);
}
