// Stand-in for heFFTe: same boxes and conventions (index 0 fastest, forward
// unscaled, backward scaled by 1/N on request), a plain separable DFT inside.
#ifndef SHIM_MICRO_HEFFTE_H
#define SHIM_MICRO_HEFFTE_H
#include "mpi.h"
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <vector>
namespace heffte {
namespace backend { struct fftw {}; struct cufft {}; struct rocfft {}; struct mkl {}; }
enum class scale { none, full, symmetric };
enum class reshape_algorithm { alltoall, alltoallv, p2p, p2p_plined };
struct plan_options { bool use_reorder = true; bool use_pencils = true; reshape_algorithm algorithm = reshape_algorithm::alltoallv; };
template <class B> plan_options default_options() { return {}; }
namespace mpi {
inline int comm_rank(MPI_Comm c) { int r; MPI_Comm_rank(c, &r); return r; }
inline int comm_size(MPI_Comm c) { int s; MPI_Comm_size(c, &s); return s; }
}
template <class I = int> struct box3d {
    std::array<I, 3> low, high, size;
    box3d(std::array<I, 3> l, std::array<I, 3> h) : low(l), high(h), size{h[0] - l[0] + 1, h[1] - l[1] + 1, h[2] - l[2] + 1} {}
    box3d r2c(int d) const { box3d b = *this; b.high[d] = low[d] + size[d] / 2; return box3d(b.low, b.high); }
    long long count() const { return (long long)size[0] * size[1] * size[2]; }
    bool operator==(const box3d& o) const { return low == o.low && high == o.high; }
    bool operator!=(const box3d& o) const { return !(*this == o); }
};
inline std::array<int, 3> proc_setup_min_surface(const box3d<>& w, int n) {
    std::array<int, 3> best{1, 1, n};
    double bs = -1;
    for (int i = 1; i <= n; i++) if (n % i == 0)
        for (int j = 1; j <= n / i; j++) if ((n / i) % j == 0) {
            int k = n / i / j;
            if (i > w.size[0] || j > w.size[1] || k > w.size[2]) continue;
            double a = double(w.size[0]) / i, b = double(w.size[1]) / j, c = double(w.size[2]) / k;
            double s = a * b + b * c + c * a;
            if (bs < 0 || s < bs) { bs = s; best = {i, j, k}; }
        }
    return best;
}
inline std::vector<box3d<>> split_world(const box3d<>& w, std::array<int, 3> g) {
    auto cut = [&](int d, int i) { return w.low[d] + i * (w.size[d] / g[d]) + std::min(i, w.size[d] % g[d]); };
    std::vector<box3d<>> r;
    for (int k = 0; k < g[2]; k++) for (int j = 0; j < g[1]; j++) for (int i = 0; i < g[0]; i++)
        r.emplace_back(std::array<int, 3>{cut(0, i), cut(1, j), cut(2, k)},
                       std::array<int, 3>{cut(0, i + 1) - 1, cut(1, j + 1) - 1, cut(2, k + 1) - 1});
    return r;
}
namespace gpu { inline int device_count() { return 0; } inline void device_set(int) {} }

namespace detail {
using C = std::complex<double>;
struct Global {             // the whole array, index 0 fastest
    std::array<int, 3> n;
    std::vector<C> v;
    size_t at(int i, int j, int k) const { return (size_t)i + (size_t)n[0] * (j + (size_t)n[1] * k); }
    void axis(int d, int sign) {
        int m = n[d];
        if (m == 1) return;
        std::vector<C> w(m), in(m), out(m);
        for (int q = 0; q < m; q++) { double a = sign * 2.0 * M_PI * q / m; w[q] = C(std::cos(a), std::sin(a)); }
        int o1 = (d + 1) % 3, o2 = (d + 2) % 3;
        for (int a = 0; a < n[o1]; a++) for (int b = 0; b < n[o2]; b++) {
            std::array<int, 3> x{};
            x[o1] = a; x[o2] = b;
            for (int q = 0; q < m; q++) { x[d] = q; in[q] = v[at(x[0], x[1], x[2])]; }
            for (int p = 0; p < m; p++) {
                C s = 0;
                for (int q = 0; q < m; q++) s += in[q] * w[(size_t)p * q % m];
                out[p] = s;
            }
            for (int q = 0; q < m; q++) { x[d] = q; v[at(x[0], x[1], x[2])] = out[q]; }
        }
    }
};
// every rank puts its box into the shared segment and reads the whole back
template <class T> std::vector<T> gather(const T* mine, const box3d<>& b, std::array<int, 3> n) {
    auto& w = shim_mpi::world();
    std::vector<T> all((size_t)n[0] * n[1] * n[2]);
    T* dst = w.size > 1 ? (T*)w.data() : all.data();
    if (w.size > 1 && all.size() * sizeof(T) > shim_mpi::World::DATA) { std::fprintf(stderr, "shim fft: too large\n"); _exit(97); }
    size_t q = 0;
    for (int k = b.low[2]; k <= b.high[2]; k++) for (int j = b.low[1]; j <= b.high[1]; j++) for (int i = b.low[0]; i <= b.high[0]; i++)
        dst[(size_t)i + (size_t)n[0] * (j + (size_t)n[1] * k)] = mine[q++];
    shim_mpi::barrier();
    if (w.size > 1) std::memcpy((void*)all.data(), dst, all.size() * sizeof(T));
    shim_mpi::barrier();
    return all;
}
inline std::array<int, 3> extent(const box3d<>& b) {   // global size: largest high over the ranks, plus one
    int h[3] = {b.high[0], b.high[1], b.high[2]};
    MPI_Allreduce(MPI_IN_PLACE, h, 3, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return {h[0] + 1, h[1] + 1, h[2] + 1};
}
} // namespace detail

template <class B> struct fft3d {
    template <class T> using buffer_container = std::vector<T>;
    box3d<> in_, out_;
    fft3d(const box3d<>& i, const box3d<>& o, MPI_Comm, plan_options = {}) : in_(i), out_(o) {}
    size_t size_workspace() const { return 1; }
    template <class X, class Y, class W> void forward(const X*, Y*, W*, scale = scale::none) const { std::fprintf(stderr, "shim fft: complex transform not provided\n"); _exit(97); }
    template <class X, class Y, class W> void backward(const X*, Y*, W*, scale = scale::none) const { std::fprintf(stderr, "shim fft: complex transform not provided\n"); _exit(97); }
};
template <class B> struct fft3d_r2c {
    box3d<> in_, out_;
    int dir_;
    std::array<int, 3> n_, nc_;
    fft3d_r2c(const box3d<>& i, const box3d<>& o, int dir, MPI_Comm, plan_options = {})
        : in_(i), out_(o), dir_(dir), n_(detail::extent(i)), nc_(detail::extent(o)) {
        if (nc_[dir] != n_[dir] / 2 + 1) throw std::runtime_error("heffte: box sizes");
    }
    size_t size_workspace() const { return 1; }
    template <class R, class W> void forward(const R* in, std::complex<R>* out, W*, scale s = scale::none) const {
        std::vector<R> all = detail::gather(in, in_, n_);
        detail::Global g{n_, std::vector<detail::C>(all.begin(), all.end())};
        for (int d = 0; d < 3; d++) g.axis(d, -1);
        double f = s == scale::full ? 1.0 / double(all.size()) : 1.0;
        size_t q = 0;
        for (int k = out_.low[2]; k <= out_.high[2]; k++) for (int j = out_.low[1]; j <= out_.high[1]; j++) for (int i = out_.low[0]; i <= out_.high[0]; i++) {
            detail::C c = g.v[g.at(i, j, k)] * f;
            out[q++] = std::complex<R>((R)c.real(), (R)c.imag());
        }
    }
    template <class R, class W> void backward(const std::complex<R>* in, R* out, W*, scale s = scale::none) const {
        std::vector<std::complex<R>> half = detail::gather(in, out_, nc_);
        detail::Global g{n_, std::vector<detail::C>((size_t)n_[0] * n_[1] * n_[2])};
        // the transform along the halved axis only sees one half: FFT libraries
        // use the real part of the self-conjugate bins after the other axes
        detail::Global h{nc_, std::vector<detail::C>(half.begin(), half.end())};
        for (int d = 0; d < 3; d++) if (d != dir_) h.axis(d, +1);
        for (int k = 0; k < n_[2]; k++) for (int j = 0; j < n_[1]; j++) for (int i = 0; i < n_[0]; i++) {
            int x[3] = {i, j, k}, y[3] = {i, j, k};
            int m = n_[dir_], q = x[dir_];
            detail::C c;
            if (q < nc_[dir_]) { c = h.v[h.at(i, j, k)]; if (q == 0 || 2 * q == m) c = c.real(); }
            else { y[dir_] = m - q; c = std::conj(h.v[h.at(y[0], y[1], y[2])]); }
            g.v[g.at(i, j, k)] = c;
        }
        g.axis(dir_, +1);
        double f = s == scale::full ? 1.0 / double(g.v.size()) : 1.0;
        size_t q = 0;
        for (int k = in_.low[2]; k <= in_.high[2]; k++) for (int j = in_.low[1]; j <= in_.high[1]; j++) for (int i = in_.low[0]; i <= in_.high[0]; i++)
            out[q++] = (R)(g.v[g.at(i, j, k)].real() * f);
    }
};
} // namespace heffte
#endif
