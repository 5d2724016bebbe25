// Small property-based-testing engine: every case is a sequence of bounded choices,
// so generation, shrinking and replay all work on one vector of integers.
//   * cases run in forked workers, so a crash, sanitizer report, abort or hang of the
//     code under test is an ordinary failing case (with its choices in shared memory);
//   * a failure is shrunk by deleting, zeroing and lowering choices;
//   * a run is a pure function of (code, seed, number of cases).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <chrono>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

template <class... A> std::string cat(A&&... a)
{
    std::ostringstream s; s.precision(17);
    (void)std::initializer_list<int>{ ((void)(s << a), 0)... };
    return s.str();
}

#define PBT_REQUIRE(c, ...) do { if (!(c)) ::pbt::fail(::pbt::cat("[", #c, "] ", ##__VA_ARGS__)); } while (0)

struct Shared {            // one per worker, mmap'ed MAP_SHARED
    volatile uint64_t n;
    volatile uint64_t truncated;
    volatile uint64_t cases_done;
    volatile uint64_t failed_at;
    char msg[8192];
    char desc[32768];
    uint64_t c[1 << 17];
};

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

class Case {
  public:
    Case(Shared* sh, uint64_t seed) : sh_(sh), st_(seed), replay_(false) { sh_->n = 0; sh_->desc[0] = 0; sh_->msg[0] = 0; }
    Case(Shared* sh, const std::vector<uint64_t>& pre) : sh_(sh), st_(0), pre_(pre), replay_(true) { sh_->n = 0; sh_->desc[0] = 0; sh_->msg[0] = 0; }

    // uniform in [0,n]
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (replay_) { v = pos_ < pre_.size() ? pre_[pos_] : 0; if (v > n) v = n; }
        else { v = (n == UINT64_MAX) ? splitmix(st_) : splitmix(st_) % (n + 1); }
        pos_++;
        uint64_t k = sh_->n;
        if (k < (sizeof(sh_->c) / 8)) { sh_->c[k] = v; sh_->n = k + 1; }
        hash_ = (hash_ ^ v) * 0x100000001b3ull + 0x9e37;
        return v;
    }
    long   i(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo)); }
    size_t n(size_t lo, size_t hi) { return lo + (size_t)draw((uint64_t)(hi - lo)); }
    bool   flip() { return draw(1) != 0; }
    bool   chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; } // shrinks to false
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    // index drawn with weights
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned t = 0; for (auto x : w) t += x;
        uint64_t v = draw(t - 1); size_t k = 0;
        for (auto x : w) { if (v < x) return k; v -= x; k++; }
        return 0;
    }
    // real number in [lo,hi]; a quarter of the draws land on a coarse grid incl. the ends
    double real(double lo, double hi)
    {
        uint64_t m = draw(3);
        if (m == 0) { uint64_t k = draw(8); return lo + (hi - lo) * (double)k / 8.0; }
        uint64_t k = draw((1ull << 40));
        return lo + (hi - lo) * (double)k / (double)(1ull << 40);
    }
    // log-uniform in [lo,hi], lo>0
    double logreal(double lo, double hi)
    {
        uint64_t k = draw((1ull << 30));
        double t = (double)k / (double)(1ull << 30);
        return std::exp(std::log(lo) + t * (std::log(hi) - std::log(lo)));
    }
    double sgn() { return flip() ? -1.0 : 1.0; }

    void label(const std::string& s) { labels.insert(s); }
    void nontrivial() { nontrivial_ = true; }
    void desc(const std::string& s)
    {
        desc_ += s; desc_ += "\n";
        std::strncpy(sh_->desc, desc_.c_str(), sizeof(sh_->desc) - 1);
        sh_->desc[sizeof(sh_->desc) - 1] = 0;
    }
    [[noreturn]] void discard() { throw Discard{}; }

    bool nontrivial_ = false;
    std::set<std::string> labels;
    std::string desc_;
    uint64_t hash_ = 0xcbf29ce484222325ull;

  private:
    Shared* sh_;
    uint64_t st_;
    std::vector<uint64_t> pre_;
    bool replay_;
    size_t pos_ = 0;
};

struct Prop { std::string name; std::function<void(Case&)> f; };
inline std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
struct Reg { Reg(const char* n, std::function<void(Case&)> f) { props().push_back({n, f}); } };

#define PBT_PROP(id) static void pbt_fn_##id(::pbt::Case& c); static ::pbt::Reg pbt_reg_##id(#id, pbt_fn_##id); \
    static void pbt_fn_##id(::pbt::Case& c)

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        switch (ch) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default: if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += (char)ch;
        }
    }
    return o + "\"";
}

inline Shared* new_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (Shared*)p;
}

// runs one case; returns true if held, false on failure (message in shared)
inline bool run_case(const Prop& p, Case& c, Shared* sh, bool& discarded)
{
    discarded = false;
    try { p.f(c); return true; }
    catch (Discard&) { discarded = true; return true; }
    catch (Fail& f) { snprintf(sh->msg, sizeof(sh->msg), "%s", f.msg.c_str()); }
    catch (std::exception& e) { snprintf(sh->msg, sizeof(sh->msg), "unexpected exception: %s", e.what()); }
    catch (...) { snprintf(sh->msg, sizeof(sh->msg), "unexpected exception of unknown type"); }
    return false;
}

inline int& case_cpu_limit() { static int v = 20; return v; } // CPU seconds for one case

inline void arm_timer()
{
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = case_cpu_limit();
    setitimer(ITIMER_PROF, &t, nullptr); // SIGPROF kills the process: CPU time, not wall time
}

inline std::string status_text(int st)
{
    if (WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        if (e == 3) return "";
        return cat("process ended with status ", e, " (sanitizer report, exit() or abort in the code under test)");
    }
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGPROF) return cat("no answer within ", case_cpu_limit(), " s of CPU time (endless loop)");
        return cat("killed by signal ", s, " (", strsignal(s), ")");
    }
    return "unknown end";
}

struct Result { bool ok; std::string msg, desc; std::vector<uint64_t> choices; };

inline std::string tmpdir() { const char* t = getenv("PBT_TMP"); return t ? t : "/tmp"; }

// run one choice vector in a fresh process
inline Result eval(const Prop& p, const std::vector<uint64_t>& pre, Shared* sh, const std::string& errfile)
{
    sh->n = 0; sh->msg[0] = 0; sh->desc[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2); dup2(fd, 1);
        arm_timer();
        bool d; Case c(sh, pre);
        bool ok = run_case(p, c, sh, d);
        _exit(ok ? 0 : 3);
    }
    int st; waitpid(pid, &st, 0);
    Result r; r.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    r.choices.assign(sh->c, sh->c + sh->n);
    if (!r.ok) { r.msg = status_text(st); if (r.msg.empty()) r.msg = sh->msg; r.desc = sh->desc; }
    return r;
}

inline std::string tail_of(const std::string& f, size_t n)
{
    std::ifstream in(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), {});
    size_t k = s.find("ERROR: "); if (k == std::string::npos) k = s.find("runtime error"); 
    if (k != std::string::npos) { size_t b = s.rfind('\n', k); return s.substr(b == std::string::npos ? 0 : b + 1, n); }
    return s.size() > n ? s.substr(s.size() - n) : s;
}

inline Result shrink(const Prop& p, Result best, Shared* sh, const std::string& errfile, double budget, uint64_t& evals)
{
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; };
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](const std::vector<uint64_t>& v) {
        evals++;
        Result r = eval(p, v, sh, errfile);
        if (!r.ok && better(r.choices, best.choices)) { best = r; return true; }
        return false;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t k : {256u, 64u, 16u, 8u, 4u, 3u, 2u, 1u}) {          // delete spans
            for (size_t i = best.choices.size(); left();) {
                if (i < k) break;
                if (i > best.choices.size()) { i = best.choices.size(); continue; }
                std::vector<uint64_t> v = best.choices;
                v.erase(v.begin() + (i - k), v.begin() + i);
                if (attempt(v)) { progress = true; }
                else { // also try lowering a preceding length-like choice while deleting
                    bool done = false;
                    for (size_t back = 1; back <= 2 && !done && i >= k + back; back++) {
                        auto w = best.choices; if (w[i - k - back] == 0) continue;
                        w[i - k - back]--; w.erase(w.begin() + (i - k), w.begin() + i);
                        if (attempt(w)) { progress = true; done = true; }
                    }
                    if (!done) i--;
                }
            }
        }
        for (size_t k : {8u, 4u, 2u, 1u})                                // zero spans
            for (size_t i = 0; i + k <= best.choices.size() && left(); i++) {
                auto v = best.choices; bool any = false;
                for (size_t j = i; j < i + k; j++) { any |= v[j] != 0; v[j] = 0; }
                if (any && attempt(v)) progress = true;
            }
        for (size_t i = 0; i < best.choices.size() && left(); i++) {      // lower values
            uint64_t lo = 0;
            while (left() && i < best.choices.size() && lo < best.choices[i]) {
                uint64_t hi = best.choices[i];
                uint64_t mid = lo + (hi - lo) / 2;
                auto v = best.choices; v[i] = mid;
                if (attempt(v)) progress = true; else lo = mid + 1;
            }
        }
    }
    return best;
}

inline int main_(int argc, char** argv)
{
    std::string prop, out, replay; uint64_t seed = 1; long cases = 100; int jobs = 8; double budget = 400, shr = 45;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--seed") seed = std::stoull(nx()); else if (a == "--cases") cases = std::stol(nx());
        else if (a == "--jobs") jobs = std::stoi(nx()); else if (a == "--budget") budget = std::stod(nx());
        else if (a == "--cpu") case_cpu_limit() = std::stoi(nx()); else if (a == "--shrink") shr = std::stod(nx());
        else if (a == "--list") { for (auto& p : props()) puts(p.name.c_str()); return 0; }
    }
    const Prop* P = nullptr; for (auto& p : props()) if (p.name == prop) P = &p;
    if (!P) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
    std::string tag = tmpdir() + "/pbt." + std::to_string((long)getpid());
    auto base_of = [&](uint64_t sd) { uint64_t b = sd * 0x9e3779b97f4a7c15ull; for (char ch : prop) b = (b ^ (unsigned char)ch) * 0x100000001b3ull; return b; };
    auto case_seed = [](uint64_t b, long k) { uint64_t cs = b + (uint64_t)k * 0xd1342543de82ef95ull; splitmix(cs); return cs; };
    // a failure that needs the cases before it in the same process: re-run that history
    auto eval_history = [&](uint64_t sd, long j, long njobs, long upto, Shared* s0, const std::string& ef) {
        fflush(nullptr);
        pid_t q = fork();
        if (q == 0) {
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1);
            for (long k = j; k <= upto; k += njobs) {
                arm_timer();
                Case c(s0, case_seed(base_of(sd), k)); bool d;
                if (!run_case(*P, c, s0, d)) _exit(3);
            }
            _exit(0);
        }
        int st; waitpid(q, &st, 0);
        Result r; r.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        r.choices.assign(s0->c, s0->c + s0->n);
        if (!r.ok) { r.msg = status_text(st); if (r.msg.empty()) r.msg = s0->msg; r.desc = s0->desc; }
        return r;
    };
    if (!replay.empty()) { // file: whitespace separated choices
        std::ifstream in(replay); std::vector<uint64_t> v; uint64_t x; std::string mode; in >> mode; while (in >> x) v.push_back(x);
        Shared* sh = new_shared(); std::string ef = tag + ".rerr";
        Result r = mode == "H" ? eval_history(v.at(0), v.at(1), v.at(2), v.at(3), sh, ef) : eval(*P, v, sh, ef);
        if (r.ok) { unlink(ef.c_str()); puts("HELD"); return 0; }
        printf("FAILED %s\n%s\n%s\n", r.msg.c_str(), r.desc.c_str(), tail_of(ef, 3000).c_str());
        unlink(ef.c_str());
        return 1;
    }
    if (cases < jobs) jobs = (int)std::max(1l, cases);
    uint64_t base = base_of(seed);
    std::vector<Shared*> sh; std::vector<pid_t> pid;
    auto tstart = std::chrono::steady_clock::now();
    fflush(nullptr);
    for (int j = 0; j < jobs; j++) {
        sh.push_back(new_shared());
        pid_t q = fork();
        if (q == 0) {
            std::string ef = tag + ".err" + std::to_string(j);
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); dup2(fd, 2);
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
            std::unordered_set<uint64_t> seen; std::map<std::string, long> lab; std::vector<std::string> samples;
            long ev = 0, disc = 0, nt = 0; bool bad = false;
            for (long k = j; k < cases; k += jobs) {
                if (std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count() > budget) break;
                uint64_t cs = case_seed(base, k);
                arm_timer();
                Case c(sh[j], cs); bool d;
                bool ok = run_case(*P, c, sh[j], d);
                ev++;
                if ((ev & 63) == 0) { if (ftruncate(fd, 0)) {} }
                if (d) disc++;
                else {
                    for (auto& l : c.labels) lab[l]++;
                    if (c.nontrivial_ && seen.insert(c.hash_).second) {
                        nt++;
                        if (samples.size() < 2 || (samples.size() < 4 && nt % 97 == 0)) samples.push_back(c.desc_);
                    }
                }
                sh[j]->cases_done = ev;
                if (!ok) { sh[j]->failed_at = (uint64_t)k + 1; bad = true; break; }
            }
            struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, nullptr);
            std::ofstream o(tag + ".st" + std::to_string(j), std::ios::binary);
            o << ev << " " << disc << " " << nt << " " << seen.size() << " " << lab.size() << " " << samples.size() << "\n";
            for (auto h : seen) o << h << " ";
            o << "\n";
            for (auto& l : lab) o << l.second << " " << l.first << "\n";
            for (auto& s : samples) o << s.size() << "\n" << s << "\n";
            o.close();
            _exit(bad ? 3 : 0);
        }
        pid.push_back(q);
    }
    long ev = 0, disc = 0; std::unordered_set<uint64_t> all; std::map<std::string, long> lab; std::vector<std::string> samples;
    std::vector<Result> fails; std::vector<int> fidx;
    for (int j = 0; j < jobs; j++) {
        int st; waitpid(pid[j], &st, 0);
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        std::string f = tag + ".st" + std::to_string(j);
        std::ifstream in(f, std::ios::binary);
        if (in) {
            long e, d, n, s, l, q; if (in >> e >> d >> n >> s >> l >> q) {
                ev += e; disc += d;
                for (long k = 0; k < s; k++) { uint64_t h; in >> h; all.insert(h); }
                for (long k = 0; k < l; k++) { long cc; std::string t; in >> cc; in.get(); std::getline(in, t); lab[t] += cc; }
                for (long k = 0; k < q; k++) { size_t len; in >> len; in.get(); std::string t(len, 0); in.read(&t[0], len); samples.push_back(t); }
            } else ev += sh[j]->cases_done + 1;
        } else ev += sh[j]->cases_done + 1;
        unlink(f.c_str());
        if (!ok) {
            Result r; r.ok = false; r.choices.assign(sh[j]->c, sh[j]->c + sh[j]->n); r.msg = status_text(st);
            if (r.msg.empty()) r.msg = sh[j]->msg; r.desc = sh[j]->desc; fails.push_back(r); fidx.push_back(j);
        }
    }
    Result rep; bool failed = false; std::string err, note; uint64_t sevals = 0; int unrepro = 0; std::string history;
    for (size_t k = 0; k < fails.size() && !failed; k++) {
        Shared* s0 = new_shared(); std::string ef = tag + ".serr";
        Result r = eval(*P, fails[k].choices, s0, ef);
        if (r.ok) {
            long upto = fidx[k] + (long)sh[fidx[k]]->cases_done * jobs; // index of the failing case
            if (sh[fidx[k]]->failed_at) upto = (long)sh[fidx[k]]->failed_at - 1;
            bool again = true; Result h;
            for (int q = 0; q < 3 && again; q++) { h = eval_history(seed, fidx[k], jobs, upto, s0, ef); again = !h.ok; }
            if (again) { rep = h; rep.msg += " (only after the earlier cases of the same run: history replay)"; err = tail_of(ef, 3000); failed = true; history = cat("H ", seed, " ", fidx[k], " ", jobs, " ", upto); continue; }
            unrepro++;
            note += "a failing case did not fail again in a fresh process: " + fails[k].msg + "\n" + tail_of(tag + ".err" + std::to_string(fidx[k]), 1500) + "\n";
            continue;
        }
        Result b = shrink(*P, r, s0, ef, shr, sevals);
        bool again = true;
        for (int q = 0; q < 3; q++) again = again && !eval(*P, b.choices, s0, ef).ok;
        if (!again) { b = r; again = true; for (int q = 0; q < 3; q++) again = again && !eval(*P, b.choices, s0, ef).ok; }
        if (again) { Result l = eval(*P, b.choices, s0, ef); rep = l.ok ? b : l; err = tail_of(ef, 3000); failed = true; }
        else { unrepro++; note += "a failing case failed only sometimes: " + b.msg + "\n"; }
        unlink(ef.c_str());
    }
    for (int j = 0; j < jobs; j++) unlink((tag + ".err" + std::to_string(j)).c_str());
    unlink((tag + ".serr").c_str());
    std::ostringstream o;
    o << "{\"prop\":" << jstr(prop) << ",\"seed\":" << seed << ",\"requested\":" << cases << ",\"evaluations\":" << ev << ",\"discarded\":" << disc
      << ",\"nontrivial\":" << all.size() << ",\"shrink_evaluations\":" << sevals << ",\"unreproduced\":" << unrepro << ",\"note\":" << jstr(note) << ",\"labels\":{";
    bool first = true; for (auto& l : lab) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":["; for (size_t k = 0; k < samples.size() && k < 4; k++) o << (k ? "," : "") << jstr(samples[k].substr(0, 1500));
    o << "],\"failed\":" << (failed ? "true" : "false");
    if (failed) {
        o << ",\"history\":" << jstr(history) << ",\"message\":" << jstr(rep.msg) << ",\"desc\":" << jstr(rep.desc) << ",\"stderr\":" << jstr(err) << ",\"choices\":[";
        for (size_t k = 0; k < rep.choices.size(); k++) o << (k ? "," : "") << rep.choices[k];
        o << "]";
    }
    o << "}\n";
    if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
    return failed ? 1 : 0;
}

} // namespace pbt
