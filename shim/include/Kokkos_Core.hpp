// Serial stand-in for the parts of Kokkos that lanl/Fierro uses.
//
// The sandbox has no Kokkos/MATAR/ELEMENTS, so the checks compile Fierro's own
// sources against this shim.  Every parallel loop runs on the host, in an order
// the check selects (forward, reverse or a seeded permutation), optionally on
// several std::threads (used with ThreadSanitizer).
#ifndef SHIM_KOKKOS_CORE_HPP
#define SHIM_KOKKOS_CORE_HPP
#include <atomic>
#include <cmath>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <map>
#include <set>
#include <array>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <variant>
#include <functional>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>

#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]

namespace shim {

struct BoundsError : std::runtime_error { using std::runtime_error::runtime_error; };
struct AbortError  : std::runtime_error { using std::runtime_error::runtime_error; };

// 0 forward, 1 reverse, 2.. : seeded permutation with this value as seed
struct Config {
    unsigned long order = 0;
    unsigned threads = 1;
    bool throw_on_error = true;     // otherwise print and abort()
    unsigned long loop_count = 0;   // loops executed
    unsigned long bounds_errors = 0;
};
inline Config& cfg() {
    static Config c = [] {
        Config k;
        if (const char* s = std::getenv("SHIM_ORDER")) k.order = std::strtoul(s, nullptr, 10);
        if (const char* s = std::getenv("SHIM_THREADS")) k.threads = (unsigned)std::strtoul(s, nullptr, 10);
        if (std::getenv("SHIM_ABORT")) k.throw_on_error = false;
        return k;
    }();
    return c;
}

[[noreturn]] inline void bounds_fail(const char* name, const std::string& what) {
    cfg().bounds_errors++;
    std::string m = std::string("SHIM-BOUNDS ") + (name ? name : "?") + ": " + what;
    if (!cfg().throw_on_error) {
        std::fflush(stdout);
        std::fprintf(stderr, "%s\n", m.c_str());
        std::abort();
    }
    throw BoundsError(m);
}

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

template <class F>
void for_range(long long lo, long long hi, F&& f) {
    if (hi <= lo) return;
    Config& c = cfg();
    c.loop_count++;
    if (c.threads > 1 && hi - lo > 1) {
        unsigned nt = c.threads;
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < nt; t++)
            ts.emplace_back([&, t] { for (long long i = lo + t; i < hi; i += nt) f(i); });
        for (auto& t : ts) t.join();
        return;
    }
    if (c.order == 0) { for (long long i = lo; i < hi; i++) f(i); return; }
    if (c.order == 1) { for (long long i = hi - 1; i >= lo; i--) f(i); return; }
    std::vector<long long> p((size_t)(hi - lo));
    for (size_t i = 0; i < p.size(); i++) p[i] = lo + (long long)i;
    uint64_t s = c.order * 1000003ull + c.loop_count;
    for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[splitmix(s) % i]);
    for (long long i : p) f(i);
}
template <class F>
void for_range2(long long a0, long long a1, long long b0, long long b1, F&& f) {
    if (a1 <= a0 || b1 <= b0) return;
    const long long nb = b1 - b0;
    for_range(0, (a1 - a0) * nb, [&](long long k) { f(a0 + k / nb, b0 + k % nb); });
}
template <class F>
void for_range3(long long a0, long long a1, long long b0, long long b1, long long c0, long long c1, F&& f) {
    if (a1 <= a0 || b1 <= b0 || c1 <= c0) return;
    const long long nb = b1 - b0, nc = c1 - c0;
    for_range(0, (a1 - a0) * nb * nc, [&](long long k) { f(a0 + k / (nb * nc), b0 + (k / nc) % nb, c0 + k % nc); });
}
// reductions always run on one thread (the join order is not what we study)
struct OneThread {
    unsigned saved;
    OneThread() : saved(cfg().threads) { cfg().threads = 1; }
    ~OneThread() { cfg().threads = saved; }
};
} // namespace shim

namespace Kokkos {
inline void fence() {}
inline void fence(const std::string&) {}
inline void initialize() {}
template <class... A> void initialize(A&&...) {}
inline void finalize() {}
struct ScopeGuard { template <class... A> ScopeGuard(A&&...) {} };
[[noreturn]] inline void abort(const char* msg) {
    if (!shim::cfg().throw_on_error) { std::fflush(stdout); std::fprintf(stderr, "Kokkos::abort: %s\n", msg); std::abort(); }
    throw shim::AbortError(std::string("Kokkos::abort: ") + msg);
}
using std::isfinite; using std::isnan; using std::isinf;
using std::fmax; using std::fmin; using std::fabs; using std::abs; using std::sqrt; using std::pow;
using std::exp; using std::log; using std::sin; using std::cos; using std::tan; using std::atan2; using std::acos;
using std::floor; using std::ceil; using std::cbrt; using std::tanh; using std::sinh; using std::cosh;
using std::max; using std::min;

namespace Impl { inline std::mutex& atomic_mutex() { static std::mutex m; return m; } }
#define SHIM_ATOMIC_GUARD \
    std::unique_lock<std::mutex> shim_lk_(Impl::atomic_mutex(), std::defer_lock); \
    if (shim::cfg().threads > 1) shim_lk_.lock()
template <class T, class U> inline void atomic_add(T* p, const U& v) { SHIM_ATOMIC_GUARD; *p += v; }
template <class T, class U> inline void atomic_sub(T* p, const U& v) { SHIM_ATOMIC_GUARD; *p -= v; }
template <class T> inline void atomic_increment(T* p) { SHIM_ATOMIC_GUARD; ++*p; }
template <class T, class U> inline T atomic_fetch_add(T* p, const U& v) { SHIM_ATOMIC_GUARD; T o = *p; *p += v; return o; }
template <class T, class U> inline void atomic_max(T* p, const U& v) { SHIM_ATOMIC_GUARD; if (*p < v) *p = v; }
template <class T, class U> inline void atomic_min(T* p, const U& v) { SHIM_ATOMIC_GUARD; if (v < *p) *p = v; }
template <class T, class U> inline T atomic_exchange(T* p, const U& v) { SHIM_ATOMIC_GUARD; T o = *p; *p = v; return o; }
template <class T, class U, class V> inline T atomic_compare_exchange(T* p, const U& c, const V& v) { SHIM_ATOMIC_GUARD; T o = *p; if (o == (T)c) *p = v; return o; }

struct AUTO_t {};
inline constexpr AUTO_t AUTO{};
struct DefaultExecutionSpace { void fence() const {} };
using DefaultHostExecutionSpace = DefaultExecutionSpace;
struct Serial : DefaultExecutionSpace {};
struct LayoutLeft {}; struct LayoutRight {};

struct TeamMember {
    long long rank_;
    int league_rank() const { return (int)rank_; }
    int team_rank() const { return 0; }
    int team_size() const { return 1; }
    void team_barrier() const {}
};
template <class... A> struct TeamPolicy {
    using member_type = TeamMember;
    long long n;
    template <class N, class... R> TeamPolicy(N n_, R&&...) : n((long long)n_) {}
};
template <class... A> struct RangePolicy {
    long long lo, hi;
    template <class L, class H> RangePolicy(L l, H h) : lo((long long)l), hi((long long)h) {}
};
enum class Iterate { Default, Left, Right };
template <int N, Iterate O = Iterate::Default, Iterate I = Iterate::Default> struct Rank { static constexpr int rank = N; };
template <class R> struct MDRangePolicy {
    std::array<long long, R::rank> lo, hi;
    template <class A, class B> MDRangePolicy(const A (&l)[R::rank], const B (&h)[R::rank]) { for (int i = 0; i < R::rank; i++) { lo[i] = l[i]; hi[i] = h[i]; } }
};
struct TeamRange { long long lo, hi; };
template <class N> TeamRange TeamThreadRange(const TeamMember&, N n) { return {0, (long long)n}; }
template <class L, class H> TeamRange TeamThreadRange(const TeamMember&, L l, H h) { return {(long long)l, (long long)h}; }
template <class N> TeamRange ThreadVectorRange(const TeamMember&, N n) { return {0, (long long)n}; }

template <class T> struct Max { T& r; using value_type = T; Max(T& x) : r(x) {}
    static T init() { return std::numeric_limits<T>::lowest(); } static void join(T& a, const T& b) { if (a < b) a = b; } };
template <class T> struct Min { T& r; using value_type = T; Min(T& x) : r(x) {}
    static T init() { return std::numeric_limits<T>::max(); } static void join(T& a, const T& b) { if (b < a) a = b; } };
template <class T> struct Sum { T& r; using value_type = T; Sum(T& x) : r(x) {}
    static T init() { return T{}; } static void join(T& a, const T& b) { a += b; } };
template <class T> struct Prod { T& r; using value_type = T; Prod(T& x) : r(x) {}
    static T init() { return T(1); } static void join(T& a, const T& b) { a *= b; } };

template <class... A, class F> void parallel_for(const std::string&, const TeamPolicy<A...>& p, const F& f) { shim::for_range(0, p.n, [&](long long i) { f(TeamMember{i}); }); }
template <class... A, class F> void parallel_for(const TeamPolicy<A...>& p, const F& f) { shim::for_range(0, p.n, [&](long long i) { f(TeamMember{i}); }); }
template <class... A, class F> void parallel_for(const std::string&, const RangePolicy<A...>& p, const F& f) { shim::for_range(p.lo, p.hi, [&](long long i) { f((int)i); }); }
template <class... A, class F> void parallel_for(const RangePolicy<A...>& p, const F& f) { shim::for_range(p.lo, p.hi, [&](long long i) { f((int)i); }); }
template <class N, class F, class = std::enable_if_t<std::is_integral_v<N>>> void parallel_for(const std::string&, N n, const F& f) { shim::for_range(0, (long long)n, [&](long long i) { f((int)i); }); }
template <class N, class F, class = std::enable_if_t<std::is_integral_v<N>>> void parallel_for(N n, const F& f) { shim::for_range(0, (long long)n, [&](long long i) { f((int)i); }); }
template <Iterate O, Iterate I, class F> void parallel_for(const MDRangePolicy<Rank<3, O, I>>& p, const F& f) {
    shim::for_range3(p.lo[0], p.hi[0], p.lo[1], p.hi[1], p.lo[2], p.hi[2], [&](long long i, long long j, long long k) { f((int)i, (int)j, (int)k); }); }
template <Iterate O, Iterate I, class F, class R> void parallel_reduce(const MDRangePolicy<Rank<3, O, I>>& p, const F& f, R& res) {
    R acc{}; shim::OneThread g;
    shim::for_range3(p.lo[0], p.hi[0], p.lo[1], p.hi[1], p.lo[2], p.hi[2], [&](long long i, long long j, long long k) { f((int)i, (int)j, (int)k, acc); });
    res = acc; }
template <class F> void parallel_for(const TeamRange& r, const F& f) { for (long long i = r.lo; i < r.hi; i++) f((int)i); }
template <class F, class R> void parallel_reduce(const TeamRange& r, const F& f, R& res) { R acc{}; for (long long i = r.lo; i < r.hi; i++) f((int)i, acc); res = acc; }
template <class... A, class F, class R> void parallel_reduce(const RangePolicy<A...>& p, const F& f, R& res) { R acc{}; shim::OneThread g; shim::for_range(p.lo, p.hi, [&](long long i) { f((int)i, acc); }); res = acc; }
template <class... A, class F, class R> void parallel_reduce(const std::string&, const RangePolicy<A...>& p, const F& f, R& res) { parallel_reduce(p, f, res); }
} // namespace Kokkos

namespace shim {
// run a reduction body once per index; each call sees a partial value that is then joined
template <class Op, class R, class Loop>
void reduce_into(R& result, Loop&& loop) {
    OneThread g;
    R acc = Op::init();
    loop(acc);
    result = acc;
}
template <class R, class V> using red_t = R;
}
#endif
