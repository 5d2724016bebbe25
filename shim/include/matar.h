// Serial stand-in for LANL MATAR (the array library Fierro is written on).
// Always bounds-checked.  With -DSHIM_SPLIT the "dual" types keep distinct host
// and device buffers, so that a missing update_host()/update_device() shows.
#ifndef SHIM_MATAR_H
#define SHIM_MATAR_H
#include "Kokkos_Core.hpp"

#define MATAR_FUNCTION
#define MATAR_INLINE_FUNCTION inline
#define MATAR_LAMBDA [=]
#define MATAR_FENCE() Kokkos::fence()
#define MATAR_INITIALIZE(...) Kokkos::initialize(__VA_ARGS__)
#define MATAR_FINALIZE() Kokkos::finalize()
#ifndef MATAR_KOKKOS_INIT
#define MATAR_KOKKOS_INIT
#define MATAR_KOKKOS_FINALIZE
#endif

// ---------------------------------------------------------------- loop macros
#define SHIM_GET(_1,_2,_3,_4,_5,_6,_7,_8,_9,_10,_11,_12,NAME,...) NAME
#define SHIM_UNUSED(x) (void)x
#define SHIM_FOR1(CAP,i,x0,x1,...) shim::for_range((long long)(x0),(long long)(x1), CAP(const int i) __VA_ARGS__)
#define SHIM_FOR2(CAP,i,x0,x1,j,y0,y1,...) shim::for_range2((long long)(x0),(long long)(x1),(long long)(y0),(long long)(y1), CAP(const int i,const int j) __VA_ARGS__)
#define SHIM_FOR3(CAP,i,x0,x1,j,y0,y1,k,z0,z1,...) shim::for_range3((long long)(x0),(long long)(x1),(long long)(y0),(long long)(y1),(long long)(z0),(long long)(z1), CAP(const int i,const int j,const int k) __VA_ARGS__)
#define SHIM_BAD(...) static_assert(false, "unsupported FOR_ALL arity")
#define FOR_ALL(...)       SHIM_GET(__VA_ARGS__,SHIM_FA3,SHIM_FA3,SHIM_FA3,SHIM_FA2,SHIM_FA2,SHIM_FA2,SHIM_FA1,SHIM_FA1,SHIM_FA1,SHIM_BAD,SHIM_BAD,SHIM_BAD)(__VA_ARGS__)
#define FOR_ALL_CLASS(...) SHIM_GET(__VA_ARGS__,SHIM_FC3,SHIM_FC3,SHIM_FC3,SHIM_FC2,SHIM_FC2,SHIM_FC2,SHIM_FC1,SHIM_FC1,SHIM_FC1,SHIM_BAD,SHIM_BAD,SHIM_BAD)(__VA_ARGS__)
#define SHIM_FA1(...) SHIM_FOR1([=],__VA_ARGS__)
#define SHIM_FA2(...) SHIM_FOR2([=],__VA_ARGS__)
#define SHIM_FA3(...) SHIM_FOR3([=],__VA_ARGS__)
#define SHIM_CC [=, *this]
#define SHIM_COMMA ,
#define SHIM_FC1(i,x0,x1,...) shim::for_range((long long)(x0),(long long)(x1), [=, *this](const int i) __VA_ARGS__)
#define SHIM_FC2(i,x0,x1,j,y0,y1,...) shim::for_range2((long long)(x0),(long long)(x1),(long long)(y0),(long long)(y1), [=, *this](const int i,const int j) __VA_ARGS__)
#define SHIM_FC3(i,x0,x1,j,y0,y1,k,z0,z1,...) shim::for_range3((long long)(x0),(long long)(x1),(long long)(y0),(long long)(y1),(long long)(z0),(long long)(z1), [=, *this](const int i,const int j,const int k) __VA_ARGS__)

// MATAR's FOR_LOOP: plain serial loops
#define FOR_LOOP(...) SHIM_GET(__VA_ARGS__,SHIM_FL3,SHIM_FL3,SHIM_FL3,SHIM_FL2,SHIM_FL2,SHIM_FL2,SHIM_FL1,SHIM_FL1,SHIM_FL1,SHIM_BAD,SHIM_BAD,SHIM_BAD)(__VA_ARGS__)
#define SHIM_FL1(i,x0,x1,...) for (int i = (x0); i < (int)(x1); i++) { __VA_ARGS__ }
#define SHIM_FL2(i,x0,x1,j,y0,y1,...) for (int i = (x0); i < (int)(x1); i++) for (int j = (y0); j < (int)(y1); j++) { __VA_ARGS__ }
#define SHIM_FL3(i,x0,x1,j,y0,y1,k,z0,z1,...) for (int i = (x0); i < (int)(x1); i++) for (int j = (y0); j < (int)(y1); j++) for (int k = (z0); k < (int)(z1); k++) { __VA_ARGS__ }

// MATAR's DO_ALL: Fortran-style inclusive bounds
#define DO_ALL(...)       SHIM_GET(__VA_ARGS__,SHIM_DA3,SHIM_DA3,SHIM_DA3,SHIM_DA2,SHIM_DA2,SHIM_DA2,SHIM_DA1,SHIM_DA1,SHIM_DA1,SHIM_BAD,SHIM_BAD,SHIM_BAD)(__VA_ARGS__)
#define SHIM_DA1(i,x0,x1,...) SHIM_FA1(i,x0,(x1)+1,__VA_ARGS__)
#define SHIM_DA2(i,x0,x1,j,y0,y1,...) SHIM_FA2(i,x0,(x1)+1,j,y0,(y1)+1,__VA_ARGS__)
#define SHIM_DA3(i,x0,x1,j,y0,y1,k,z0,z1,...) SHIM_FA3(i,x0,(x1)+1,j,y0,(y1)+1,k,z0,(z1)+1,__VA_ARGS__)
#define DO_ALL_CLASS(...) SHIM_GET(__VA_ARGS__,SHIM_DC3,SHIM_DC3,SHIM_DC3,SHIM_DC2,SHIM_DC2,SHIM_DC2,SHIM_DC1,SHIM_DC1,SHIM_DC1,SHIM_BAD,SHIM_BAD,SHIM_BAD)(__VA_ARGS__)
#define SHIM_DC1(i,x0,x1,...) SHIM_FC1(i,x0,(x1)+1,__VA_ARGS__)
#define SHIM_DC2(i,x0,x1,j,y0,y1,...) SHIM_FC2(i,x0,(x1)+1,j,y0,(y1)+1,__VA_ARGS__)
#define SHIM_DC3(i,x0,x1,j,y0,y1,k,z0,z1,...) SHIM_FC3(i,x0,(x1)+1,j,y0,(y1)+1,k,z0,(z1)+1,__VA_ARGS__)

#define RUN(...)       do { auto shim_run_ = [=]() __VA_ARGS__; shim_run_(); } while (0)
#define RUN_CLASS(...) do { auto shim_run_ = [=, *this]() __VA_ARGS__; shim_run_(); } while (0)

// reductions: FOR_REDUCE_X(i,lo,hi, local, {body}, result) and the 2- and 3-index forms
#define SHIM_R1(CAP,OP,i,x0,x1,var,fcn,result) \
    shim::reduce_into<Kokkos::OP<std::decay_t<decltype(result)>>>(result, [&](auto& shim_acc) { \
        auto shim_f = CAP(const int i, decltype(var)& var) fcn; \
        shim::reduce_loop1(shim_f, (long long)(x0), (long long)(x1), shim_acc, (decltype(var)*)nullptr); })
#define SHIM_R2(CAP,OP,i,x0,x1,j,y0,y1,var,fcn,result) \
    shim::reduce_into<Kokkos::OP<std::decay_t<decltype(result)>>>(result, [&](auto& shim_acc) { \
        auto shim_f = CAP(const int i, const int j, decltype(var)& var) fcn; \
        shim::reduce_loop2(shim_f, (long long)(x0), (long long)(x1), (long long)(y0), (long long)(y1), shim_acc, (decltype(var)*)nullptr); })
#define SHIM_R3(CAP,OP,i,x0,x1,j,y0,y1,k,z0,z1,var,fcn,result) \
    shim::reduce_into<Kokkos::OP<std::decay_t<decltype(result)>>>(result, [&](auto& shim_acc) { \
        auto shim_f = CAP(const int i, const int j, const int k, decltype(var)& var) fcn; \
        shim::reduce_loop3(shim_f, (long long)(x0), (long long)(x1), (long long)(y0), (long long)(y1), (long long)(z0), (long long)(z1), shim_acc, (decltype(var)*)nullptr); })
namespace shim {
template <class F, class A, class V> void reduce_loop1(F& f, long long a, long long b, A& acc, V*) {
    V v = (V)acc; for_range(a, b, [&](long long i) { f((int)i, v); }); acc = (A)v; }
template <class F, class A, class V> void reduce_loop2(F& f, long long a, long long b, long long c, long long d, A& acc, V*) {
    V v = (V)acc; for_range2(a, b, c, d, [&](long long i, long long j) { f((int)i, (int)j, v); }); acc = (A)v; }
template <class F, class A, class V> void reduce_loop3(F& f, long long a, long long b, long long c, long long d, long long e, long long g, A& acc, V*) {
    V v = (V)acc; for_range3(a, b, c, d, e, g, [&](long long i, long long j, long long k) { f((int)i, (int)j, (int)k, v); }); acc = (A)v; }
}
#define SHIM_GR(_1,_2,_3,_4,_5,_6,_7,_8,_9,_10,_11,_12,NAME,...) NAME
#define SHIM_RED(OP,...)  SHIM_GR(__VA_ARGS__,SHIM_RA3,SHIM_BAD,SHIM_BAD,SHIM_RA2,SHIM_BAD,SHIM_BAD,SHIM_RA1,SHIM_BAD,SHIM_BAD,SHIM_BAD,SHIM_BAD,SHIM_BAD)(OP,__VA_ARGS__)
#define SHIM_RA1(OP,i,x0,x1,var,fcn,result) SHIM_R1([=],OP,i,x0,x1,var,fcn,result)
#define SHIM_RA2(OP,i,x0,x1,j,y0,y1,var,fcn,result) SHIM_R2([=],OP,i,x0,x1,j,y0,y1,var,fcn,result)
#define SHIM_RA3(OP,i,x0,x1,j,y0,y1,k,z0,z1,var,fcn,result) SHIM_R3([=],OP,i,x0,x1,j,y0,y1,k,z0,z1,var,fcn,result)
#define FOR_REDUCE_SUM(...) SHIM_RED(Sum,__VA_ARGS__)
#define FOR_REDUCE_MAX(...) SHIM_RED(Max,__VA_ARGS__)
#define FOR_REDUCE_MIN(...) SHIM_RED(Min,__VA_ARGS__)
#define FOR_REDUCE_PRODUCT(...) SHIM_RED(Prod,__VA_ARGS__)
#define FOR_REDUCE_SUM_CLASS(...) SHIM_RED(Sum,__VA_ARGS__)
#define FOR_REDUCE_MAX_CLASS(...) SHIM_RED(Max,__VA_ARGS__)
#define FOR_REDUCE_MIN_CLASS(...) SHIM_RED(Min,__VA_ARGS__)
#define REDUCE_SUM(...) SHIM_RED(Sum,__VA_ARGS__)
#define REDUCE_MAX(...) SHIM_RED(Max,__VA_ARGS__)
#define REDUCE_MIN(...) SHIM_RED(Min,__VA_ARGS__)
#define REDUCE_SUM_CLASS(...) SHIM_RED(Sum,__VA_ARGS__)
#define REDUCE_MAX_CLASS(...) SHIM_RED(Max,__VA_ARGS__)
#define REDUCE_MIN_CLASS(...) SHIM_RED(Min,__VA_ARGS__)

namespace mtr {
using std::size_t;
namespace detail {

struct Shape {
    size_t d[7] = {0, 0, 0, 0, 0, 0, 0};
    unsigned order = 0;
    size_t len = 0;
    std::string name;
};

template <class T> constexpr bool is_dim = std::is_arithmetic_v<std::decay_t<T>> || std::is_enum_v<std::decay_t<T>>;

inline void take(Shape&) {}
template <class A, class... R> void take(Shape& s, A&& a, R&&... r) {
    if constexpr (is_dim<A>) {
        s.d[s.order++] = (size_t)a;
    } else {
        s.name = std::string(a);
    }
    take(s, std::forward<R>(r)...);
}
template <class... A> Shape shape_of(A&&... a) {
    Shape s;
    take(s, std::forward<A>(a)...);
    s.len = s.order ? 1 : 0;
    for (unsigned i = 0; i < s.order; i++) s.len *= s.d[i];
    return s;
}

template <class T> std::shared_ptr<T[]> alloc(size_t n) {
    // one spare element so that empty arrays have a valid pointer
    return std::shared_ptr<T[]>(new T[n + 1]());
}

// offset: F = Fortran (first index fastest), BASE = first valid index
template <bool F, int BASE, class... I>
inline size_t offset(const Shape& s, I... ii) {
    constexpr unsigned n = sizeof...(I);
    const long long idx[n] = {(long long)ii...};
    if (n != s.order) shim::bounds_fail(s.name.c_str(), "accessed with " + std::to_string(n) + " indices, has " + std::to_string(s.order));
    for (unsigned k = 0; k < n; k++)
        if (idx[k] < BASE || idx[k] - BASE >= (long long)s.d[k])
            shim::bounds_fail(s.name.c_str(), "index " + std::to_string(k) + " = " + std::to_string(idx[k]) +
                              " outside " + std::to_string(s.d[k]));
    size_t o = 0;
    if (F) { for (unsigned k = n; k-- > 0;) o = o * s.d[k] + (size_t)(idx[k] - BASE); }
    else   { for (unsigned k = 0; k < n; k++) o = o * s.d[k] + (size_t)(idx[k] - BASE); }
    return o;
}

template <class T, bool F, int BASE> struct HostSide {
    std::shared_ptr<Shape> s;
    std::shared_ptr<T[]> own;
    T* p = nullptr;
    template <class... I> T& operator()(I... i) const {
        if (!s) shim::bounds_fail("unallocated(host)", "access");
        return p[offset<F, BASE>(*s, i...)];
    }
    size_t dims(size_t i) const { return s ? s->d[i] : 0; }
    size_t size() const { return s ? s->len : 0; }
    size_t extent() const { return size(); }
    size_t order() const { return s ? s->order : 0; }
    T* pointer() const { return p; }
    const std::string get_name() const { return s ? s->name : std::string(); }
    void set_values(T v) const { for (size_t i = 0; i < size(); i++) p[i] = v; }
};
struct NoHost {};
// a view keeps its shape in place (no allocation: kernels make many of them)
struct InlineShape {
    Shape s; bool set = false;
    explicit operator bool() const { return set; }
    const Shape* operator->() const { return &s; }
    const Shape& operator*() const { return s; }
};

// TAG only makes the families distinct types.  OWN: allocates. DUAL: has .host
template <class T, bool F, int BASE, bool OWN, bool DUAL, int TAG>
struct Array {
    using value_type = T;
    std::conditional_t<OWN || DUAL, std::shared_ptr<Shape>, InlineShape> s_;
    std::shared_ptr<T[]> own_;
    T* p_ = nullptr;
    std::conditional_t<DUAL, HostSide<T, F, BASE>, NoHost> host;

    Array() = default;
    template <class A, class... R, class = std::enable_if_t<OWN && is_dim<A>>>
    Array(A a, R&&... r) { init(shape_of(a, std::forward<R>(r)...)); }
    template <class A, class... R, class = std::enable_if_t<!OWN && is_dim<A>>>
    Array(T* ptr, A a, R&&... r) {
        if constexpr (DUAL) s_ = std::make_shared<Shape>(shape_of(a, std::forward<R>(r)...));
        else { s_.s = shape_of(a, std::forward<R>(r)...); s_.set = true; }
        p_ = ptr;
        if constexpr (DUAL) {
            host.s = s_; host.p = ptr;
#ifdef SHIM_SPLIT
            own_ = alloc<T>(s_->len); p_ = own_.get();
            for (size_t i = 0; i < s_->len; i++) p_[i] = ptr[i];
#endif
        }
    }
    void init(Shape sh) {
        s_ = std::make_shared<Shape>(std::move(sh));
        own_ = alloc<T>(s_->len);
        p_ = own_.get();
        if constexpr (DUAL) {
            host.s = s_;
#ifdef SHIM_SPLIT
            host.own = alloc<T>(s_->len); host.p = host.own.get();
#else
            host.own = own_; host.p = p_;
#endif
        }
    }
    template <class... I> T& operator()(I... i) const {
        if (!s_) shim::bounds_fail("unallocated", "access");
        return p_[offset<F, BASE>(*s_, i...)];
    }
    size_t dims(size_t i) const {
        if constexpr (BASE == 1) { return s_ ? s_->d[i - 1] : 0; }
        return s_ ? s_->d[i] : 0;
    }
    size_t size() const { return s_ ? s_->len : 0; }
    size_t extent() const { return size(); }
    size_t order() const { return s_ ? s_->order : 0; }
    T* pointer() const { return p_; }
    T* device_pointer() const { return p_; }
    T* host_pointer() const { if constexpr (DUAL) return host.p; else return p_; }
    T* get_kokkos_view() const { return p_; }
    const std::string get_name() const { return s_ ? s_->name : std::string(); }
    void set_values(T v) const { for (size_t i = 0; i < size(); i++) p_[i] = v; }
    // a view is re-seated by set_values(ptr?) in no Fierro code; copies share storage
    void update_host() const {
#ifdef SHIM_SPLIT
        if constexpr (DUAL) for (size_t i = 0; i < size(); i++) host.p[i] = p_[i];
#endif
    }
    void update_device() const {
#ifdef SHIM_SPLIT
        if constexpr (DUAL) for (size_t i = 0; i < size(); i++) p_[i] = host.p[i];
#endif
    }
    void lock_update() const {}
    void unlock_update() const {}
};

// ragged right: row i has stride(i) entries, each entry [d2 [d3]]
template <class T, bool DUAL, int TAG>
struct Ragged {
    using value_type = T;
    struct Info {
        std::vector<size_t> start;   // in rows*entry units
        size_t rows = 0, e1 = 1, e2 = 1, len = 0;
        unsigned extra = 0;
        std::string name;
    };
    std::shared_ptr<Info> s_;
    std::shared_ptr<T[]> own_;
    T* p_ = nullptr;

    struct Host {
        std::shared_ptr<Info> s; std::shared_ptr<T[]> own; T* p = nullptr;
        template <class... I> T& operator()(I... i) const {
            if (!s) shim::bounds_fail("unallocated ragged(host)", "access");
            return p[off(*s, i...)];
        }
        size_t stride(size_t i) const { return s->start.at(i + 1) - s->start.at(i); }
        size_t dims(size_t i) const { return i == 0 ? s->rows : (i == 1 ? s->e1 : s->e2); }
        size_t size() const { return s ? s->len : 0; }
        T* pointer() const { return p; }
        void set_values(T v) const { for (size_t i = 0; i < size(); i++) p[i] = v; }
    };
    std::conditional_t<DUAL, Host, NoHost> host;

    template <class... I> static size_t off(const Info& s, I... ii) {
        constexpr unsigned n = sizeof...(I);
        const long long x[n] = {(long long)ii...};
        if (n != s.extra + 2) shim::bounds_fail(s.name.c_str(), "ragged accessed with " + std::to_string(n) + " indices");
        if (x[0] < 0 || x[0] >= (long long)s.rows) shim::bounds_fail(s.name.c_str(), "ragged row " + std::to_string(x[0]) + " of " + std::to_string(s.rows));
        const long long st = (long long)(s.start[x[0] + 1] - s.start[x[0]]);
        if (x[1] < 0 || x[1] >= st) shim::bounds_fail(s.name.c_str(), "ragged (" + std::to_string(x[0]) + "," + std::to_string(x[1]) + ") of row length " + std::to_string(st));
        size_t o = s.start[x[0]] + (size_t)x[1];
        if constexpr (n > 2) {
            if (x[2] < 0 || x[2] >= (long long)s.e1) shim::bounds_fail(s.name.c_str(), "ragged index 2 = " + std::to_string(x[2]));
            o = o * s.e1 + (size_t)x[2];
        }
        if constexpr (n > 3) {
            if (x[3] < 0 || x[3] >= (long long)s.e2) shim::bounds_fail(s.name.c_str(), "ragged index 3 = " + std::to_string(x[3]));
            o = o * s.e2 + (size_t)x[3];
        }
        return o;
    }
    Ragged() = default;
    template <class Strides, class... R, class = std::enable_if_t<!is_dim<Strides> && !std::is_same_v<std::decay_t<Strides>, Ragged>>,
              class = decltype(std::declval<const Strides&>().dims(0))>
    Ragged(const Strides& st, R&&... r) {
        Shape x; take(x, std::forward<R>(r)...);
        s_ = std::make_shared<Info>();
        s_->name = x.name; s_->extra = x.order;
        if (x.order > 0) s_->e1 = x.d[0];
        if (x.order > 1) s_->e2 = x.d[1];
        s_->rows = st.size();
        s_->start.assign(s_->rows + 1, 0);
        for (size_t i = 0; i < s_->rows; i++) s_->start[i + 1] = s_->start[i] + (size_t)st.p_[i];
        s_->len = s_->start[s_->rows] * s_->e1 * s_->e2;
        own_ = alloc<T>(s_->len); p_ = own_.get();
        if constexpr (DUAL) {
            host.s = s_;
#ifdef SHIM_SPLIT
            host.own = alloc<T>(s_->len); host.p = host.own.get();
#else
            host.own = own_; host.p = p_;
#endif
        }
    }
    template <class... I> T& operator()(I... i) const {
        if (!s_) shim::bounds_fail("unallocated ragged", "access");
        return p_[off(*s_, i...)];
    }
    size_t stride(size_t i) const {
        if (!s_ || i >= s_->rows) shim::bounds_fail(s_ ? s_->name.c_str() : "unallocated", "stride row " + std::to_string(i));
        return s_->start[i + 1] - s_->start[i];
    }
    size_t stride_host(size_t i) const { return stride(i); }
    size_t dims(size_t i) const { return !s_ ? 0 : (i == 0 ? s_->rows : (i == 1 ? s_->e1 : s_->e2)); }
    size_t size() const { return s_ ? s_->len : 0; }
    T* pointer() const { return p_; }
    T* device_pointer() const { return p_; }
    const std::string get_name() const { return s_ ? s_->name : std::string(); }
    void set_values(T v) const { for (size_t i = 0; i < size(); i++) p_[i] = v; }
    void update_host() const {
#ifdef SHIM_SPLIT
        if constexpr (DUAL) for (size_t i = 0; i < size(); i++) host.p[i] = p_[i];
#endif
    }
    void update_device() const {
#ifdef SHIM_SPLIT
        if constexpr (DUAL) for (size_t i = 0; i < size(); i++) p_[i] = host.p[i];
#endif
    }
};

template <class T, int TAG> struct DynRagged {
    std::shared_ptr<std::vector<size_t>> st_;
    std::shared_ptr<T[]> own_;
    size_t d0_ = 0, d1_ = 0;
    std::string name_;
    DynRagged() = default;
    DynRagged(size_t a, size_t b, const std::string& n = "") : st_(std::make_shared<std::vector<size_t>>(a, 0)), own_(alloc<T>(a * b)), d0_(a), d1_(b), name_(n) {}
    T& operator()(size_t i, size_t j) const {
        if (i >= d0_ || j >= d1_) shim::bounds_fail(name_.c_str(), "dynamic ragged (" + std::to_string(i) + "," + std::to_string(j) + ")");
        return own_[i * d1_ + j];
    }
    size_t& stride(size_t i) const {
        if (i >= d0_) shim::bounds_fail(name_.c_str(), "dynamic ragged stride " + std::to_string(i));
        return (*st_)[i];
    }
    size_t dims(size_t i) const { return i == 0 ? d0_ : d1_; }
    size_t size() const { return d0_ * d1_; }
    T* pointer() const { return own_.get(); }
    void set_values(T v) const { for (size_t i = 0; i < d0_ * d1_; i++) own_[i] = v; }
    void set_values_sparse(T v) const { set_values(v); }
};
} // namespace detail

// arrays: 0-based; matrices: 1-based. C: last index fastest; F: first index fastest
template <class T> using CArray            = detail::Array<T, false, 0, true , false, 0>;
template <class T> using FArray            = detail::Array<T, true , 0, true , false, 1>;
template <class T> using CMatrix           = detail::Array<T, false, 1, true , false, 2>;
template <class T> using FMatrix           = detail::Array<T, true , 1, true , false, 3>;
template <class T> using ViewCArray        = detail::Array<T, false, 0, false, false, 4>;
template <class T> using ViewFArray        = detail::Array<T, true , 0, false, false, 5>;
template <class T> using ViewCMatrix       = detail::Array<T, false, 1, false, false, 6>;
template <class T> using ViewFMatrix       = detail::Array<T, true , 1, false, false, 7>;
template <class T> using CArrayHost        = CArray<T>;
template <class T> using FArrayHost        = FArray<T>;
template <class T> using CArrayKokkos      = detail::Array<T, false, 0, true , false, 8>;
template <class T> using FArrayKokkos      = detail::Array<T, true , 0, true , false, 9>;
template <class T> using CMatrixKokkos     = detail::Array<T, false, 1, true , false, 10>;
template <class T> using FMatrixKokkos     = detail::Array<T, true , 1, true , false, 11>;
template <class T> using ViewCArrayKokkos  = detail::Array<T, false, 0, false, false, 12>;
template <class T> using ViewFArrayKokkos  = detail::Array<T, true , 0, false, false, 13>;
template <class T> using ViewCMatrixKokkos = detail::Array<T, false, 1, false, false, 14>;
template <class T> using ViewFMatrixKokkos = detail::Array<T, true , 1, false, false, 15>;
template <class T> using CArrayDevice      = CArrayKokkos<T>;
template <class T> using FArrayDevice      = FArrayKokkos<T>;
template <class T> using CMatrixDevice     = CMatrixKokkos<T>;
template <class T> using FMatrixDevice     = FMatrixKokkos<T>;
template <class T> using ViewCArrayDevice  = ViewCArrayKokkos<T>;
template <class T> using DCArrayKokkos     = detail::Array<T, false, 0, true , true , 16>;
template <class T> using DFArrayKokkos     = detail::Array<T, true , 0, true , true , 17>;
template <class T> using DCMatrixKokkos    = detail::Array<T, false, 1, true , true , 18>;
template <class T> using DFMatrixKokkos    = detail::Array<T, true , 1, true , true , 19>;
template <class T> using DViewCArrayKokkos = detail::Array<T, false, 0, false, true , 20>;
template <class T> using DViewFArrayKokkos = detail::Array<T, true , 0, false, true , 21>;
template <class T> using DViewCMatrixKokkos= detail::Array<T, false, 1, false, true , 22>;
template <class T> using DViewFMatrixKokkos= detail::Array<T, true , 1, false, true , 23>;
template <class T> using DCArrayDual       = DCArrayKokkos<T>;
template <class T> using DFArrayDual       = DFArrayKokkos<T>;
template <class T> using DCMatrixDual      = DCMatrixKokkos<T>;
template <class T> using DFMatrixDual      = DFMatrixKokkos<T>;
template <class T> using CArrayDual        = DCArrayKokkos<T>;
template <class T> using FArrayDual        = DFArrayKokkos<T>;
template <class T> using CMatrixDual       = DCMatrixKokkos<T>;
template <class T> using FMatrixDual       = DFMatrixKokkos<T>;
template <class T> using ViewCArrayDual    = DViewCArrayKokkos<T>;
template <class T> using ViewCMatrixDual   = DViewCMatrixKokkos<T>;
template <class T> using ViewFMatrixDual   = DViewFMatrixKokkos<T>;
template <class T> using RaggedRightArray        = detail::Ragged<T, false, 0>;
template <class T> using RaggedRightArrayKokkos  = detail::Ragged<T, false, 1>;
template <class T> using DRaggedRightArrayKokkos = detail::Ragged<T, true, 2>;
template <class T> using DynamicRaggedRightArray = detail::DynRagged<T, 0>;
template <class T> using DynamicRaggedRightArrayKokkos = detail::DynRagged<T, 1>;

using real_t = double;
using u_int = unsigned int;
} // namespace mtr
#endif
