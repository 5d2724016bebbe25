// Stand-in for MPI: the ranks are processes forked in MPI_Init (SHIM_RANKS of
// them, 1 when unset) that meet in a shared memory segment.
#ifndef SHIM_MICRO_MPI_H
#define SHIM_MICRO_MPI_H
#include <math.h>
#include <stdlib.h>   // like the real headers: puts abs(double) into the global namespace
#include <atomic>
#include <csignal>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
struct MPI_Status { int unused; };
struct shim_mpi_file { std::FILE* f; long disp; };
typedef shim_mpi_file* MPI_File;
typedef long long MPI_Offset;

#define MPI_COMM_WORLD 0
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void*)-1)
#define MPI_CHAR 1
#define MPI_INT 4
#define MPI_FLOAT 5
#define MPI_DOUBLE 8
#define MPI_LONG_DOUBLE 16
#define MPI_DATATYPE_NULL 0
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_INFO_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_ORDER_FORTRAN 57
#define MPI_ORDER_C 56
#define MPI_MODE_CREATE 1
#define MPI_MODE_RDONLY 2
#define MPI_MODE_WRONLY 4
#define MPI_MODE_UNIQUE_OPEN 32

namespace shim_mpi {
struct World {
    int rank = 0, size = 1;
    char* mem = nullptr;                 // header + data
    static constexpr size_t DATA = 64 << 20;
    std::atomic<int>* count() { return (std::atomic<int>*)mem; }
    std::atomic<int>* turn() { return (std::atomic<int>*)(mem + 64); }
    char* data() { return mem + 4096; }
    std::vector<pid_t> kids;
};
inline World& world() { static World w; return w; }
inline void barrier() {
    World& w = world();
    if (w.size == 1) return;
    int t = w.turn()->load();
    if (w.count()->fetch_add(1) + 1 == w.size) { w.count()->store(0); w.turn()->fetch_add(1); }
    else while (w.turn()->load() == t) sched_yield();
}
inline void on_child(int) {
    int st;
    pid_t p;
    while ((p = waitpid(-1, &st, WNOHANG)) > 0)
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            static const char m[] = "a rank ended abnormally\n";
            if (write(2, m, sizeof m - 1)) {}
            _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
        }
}
template <class T> void reduce(T* p, int n, int op) {
    World& w = world();
    if (w.size == 1) return;
    T* all = (T*)w.data();
    if (sizeof(T) * (size_t)n * (size_t)w.size > World::DATA) { std::fprintf(stderr, "shim mpi: reduction too large\n"); _exit(97); }
    std::memcpy(all + (size_t)w.rank * n, p, sizeof(T) * n);
    barrier();
    for (int i = 0; i < n; i++) {
        T acc = all[i];
        for (int r = 1; r < w.size; r++) {
            T v = all[(size_t)r * n + i];
            acc = op == MPI_SUM ? acc + v : op == MPI_MAX ? (v > acc ? v : acc) : (v < acc ? v : acc);
        }
        p[i] = acc;
    }
    barrier();
}
} // namespace shim_mpi

inline int MPI_Init(int*, char***) {
    using namespace shim_mpi;
    World& w = world();
    if (const char* s = std::getenv("SHIM_RANKS")) w.size = std::atoi(s) > 0 ? std::atoi(s) : 1;
    if (w.size == 1) return 0;
    w.mem = (char*)mmap(nullptr, 4096 + World::DATA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (w.mem == MAP_FAILED) { std::perror("mmap"); _exit(97); }
    new (w.count()) std::atomic<int>(0);
    new (w.turn()) std::atomic<int>(0);
    std::fflush(nullptr);
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_child;
    sa.sa_flags = SA_RESTART | SA_NOCLDSTOP;
    sigaction(SIGCHLD, &sa, nullptr);
    pid_t parent = getpid();
    for (int r = 1; r < w.size; r++) {
        pid_t p = fork();
        if (p < 0) { std::perror("fork"); _exit(97); }
        if (p == 0) {
            signal(SIGCHLD, SIG_DFL);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) _exit(97);
            w.rank = r;
            w.kids.clear();
            break;
        }
        w.kids.push_back(p);
    }
    return 0;
}
inline int MPI_Finalize() {
    using namespace shim_mpi;
    barrier();
    return 0;
}
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = shim_mpi::world().rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int* s) { *s = shim_mpi::world().size; return 0; }
inline int MPI_Barrier(MPI_Comm) { shim_mpi::barrier(); return 0; }
inline int MPI_Abort(MPI_Comm, int c) { std::fflush(nullptr); _exit(c ? c : 1); }
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    size_t sz = t == MPI_LONG_DOUBLE ? sizeof(long double) : t == MPI_DOUBLE ? 8 : t == MPI_CHAR ? 1 : 4;
    if (in != MPI_IN_PLACE) std::memcpy(out, in, sz * n);
    if (t == MPI_DOUBLE) shim_mpi::reduce((double*)out, n, op);
    else if (t == MPI_FLOAT) shim_mpi::reduce((float*)out, n, op);
    else if (t == MPI_INT) shim_mpi::reduce((int*)out, n, op);
    else { std::fprintf(stderr, "shim mpi: reduction type\n"); _exit(97); }
    return 0;
}
inline int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype* n) { *n = 1000; return 0; }
inline int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype, MPI_Datatype* n) { *n = 1001; return 0; }
inline int MPI_Type_commit(MPI_Datatype*) { return 0; }
inline int MPI_Type_free(MPI_Datatype*) { return 0; }
inline int MPI_Info_create(MPI_Info* i) { *i = 1; return 0; }
inline int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
inline int MPI_Info_free(MPI_Info* i) { *i = 0; return 0; }
// MPI-IO is constructed but never used by the runs the checks make
inline int shim_mpi_noio() { std::fprintf(stderr, "shim mpi: MPI-IO is not provided\n"); _exit(97); }
inline int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*) { return shim_mpi_noio(); }
inline int MPI_File_close(MPI_File*) { return shim_mpi_noio(); }
inline int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char*, MPI_Info) { return shim_mpi_noio(); }
inline int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*) { return shim_mpi_noio(); }
inline int MPI_File_write_all(MPI_File, const void*, int, MPI_Datatype, MPI_Status*) { return shim_mpi_noio(); }
inline int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*) { return shim_mpi_noio(); }
#endif
