// Replay drivers: run the real, compiled code on generated inputs against an oracle of their own.
#ifndef DRV_H
#define DRV_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <sstream>
#include <vector>
#include <chrono>
#include <functional>
namespace drv {
struct Rng {
    std::uint64_t s;
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    std::uint64_t below(std::uint64_t n) { return next() % n; }
    bool flip() { return (next() >> 40) & 1; }
};
inline Rng rng{0x9E3779B97F4A7C15ull};
inline long evals = 0, fails = 0;
inline double budget = 5;
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline bool time_left() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; }
inline void fail(std::string const &what) {
    if (++fails <= 20) { std::printf("FAIL %s\n", what.c_str()); std::fflush(stdout); }
}
inline void known(std::string const &key, std::string const &what) { std::printf("KNOWN %s %s\n", key.c_str(), what.c_str()); std::fflush(stdout); }
template<class... A> std::string cat(A const&... a) { std::ostringstream o; ((o << a), ...); return o.str(); }
inline int finish() { std::printf("EVALS %ld\n", evals); return fails ? 1 : 0; }
inline void init(int argc, char **argv) {
    std::setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc > 1) { rng.s ^= std::strtoull(argv[1], nullptr, 10) * 0xD1B54A32D192ED03ull; if (!rng.s) rng.s = 1; }
    if (argc > 2) budget = std::atof(argv[2]);
    for (int i = 0; i < 8; ++i) rng.next();
}
}
#define EXPECT(cond, ...) do { ++drv::evals; if (!(cond)) drv::fail(drv::cat(__VA_ARGS__)); } while (0)
// run f and require that it does not throw
#define NOTHROW(f, ...) do { try { f; } catch (std::exception const &e) { drv::fail(drv::cat(__VA_ARGS__, " threw ", e.what())); } } while (0)
#define THROWS(E, f, ...) do { ++drv::evals; bool ok_ = false; try { f; } catch (E const &) { ok_ = true; } catch (...) { } if (!ok_) drv::fail(drv::cat(__VA_ARGS__, " did not throw " #E)); } while (0)
#endif
