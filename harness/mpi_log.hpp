// Interposes on the point-to-point calls the program makes on MPI_COMM_WORLD (MPI profiling interface), logs them per
// thread and plays the harshest conforming MPI: a receive buffer holds non-numbers from the start of a receive until its
// completion, completions come late, and a send buffer that changes before its completion is noticed.
#ifndef VERIF_MPI_LOG_HPP
#define VERIF_MPI_LOG_HPP
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#undef MPI_Isend
#undef MPI_Irecv
#undef MPI_Start
#undef MPI_Startall
#undef MPI_Wait
#undef MPI_Waitall
#undef MPI_Waitany
#undef MPI_Send_init
#undef MPI_Recv_init
#undef MPI_Send
#undef MPI_Recv
#undef MPI_Barrier
namespace mpilog {
static FILE* f = nullptr;
static std::mutex mx;
static std::mt19937 gen;
struct Req {
    bool send, persistent, active = false;
    double* user;
    int n, peer, tag, kind;
    std::vector<double> shadow;
    unsigned h0 = 0;
};
static std::map<MPI_Request, std::shared_ptr<Req>> reqs;
static std::map<std::tuple<bool, int, int>, int> kinds;
static unsigned hash(const double* p, int n) {
    unsigned h           = 2166136261u;
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n * sizeof(double); ++i)
        h = (h ^ c[i]) * 16777619u;
    return h & 0x3fffffff;
}
static void init(const std::string& name, int seed) {
    f = fopen(name.c_str(), "w");
    gen.seed(seed);
}
static void close() {
    if (f)
        fclose(f);
    f = nullptr;
}
static void line(const char* op, const Req& r, unsigned h) {
    fprintf(f, "{\"th\":%d,\"op\":\"%s\",\"peer\":%d,\"tag\":%d,\"kind\":%d,\"n\":%d,\"h\":%u}\n", omp_get_thread_num(), op,
            r.peer, r.tag, r.kind, r.n, h);
}
static void own(uint b, uint e, uint n) {
    if (!f)
        return;
    std::lock_guard<std::mutex> g(mx);
    fprintf(f, "{\"th\":%d,\"op\":\"own\",\"b\":%u,\"e\":%u,\"n\":%u}\n", omp_get_thread_num(), b, e, n);
}
static void dawdle() {
    unsigned t;
    {
        std::lock_guard<std::mutex> g(mx);
        t = gen() % 8;
    }
    if (t < 3)
        usleep(200 << t);
}
static std::shared_ptr<Req> find(MPI_Request q) {
    std::lock_guard<std::mutex> g(mx);
    auto it = reqs.find(q);
    return it == reqs.end() ? nullptr : it->second;
}
static void starting(std::shared_ptr<Req> r) {
    std::lock_guard<std::mutex> g(mx);
    r->active = true;
    if (r->send) {
        r->h0 = hash(r->user, r->n);
        line("ss", *r, r->h0);
    } else {
        for (int i = 0; i < r->n; ++i)
            r->user[i] = r->shadow[i] = std::nan("");
        line("rs", *r, 0);
    }
}
static void done(std::shared_ptr<Req> r) {
    std::lock_guard<std::mutex> g(mx);
    if (!r->active)
        return;
    r->active = false;
    if (r->send) {
        line("sw", *r, hash(r->user, r->n));
    } else {
        std::memcpy(r->user, r->shadow.data(), r->n * sizeof(double));
        line("rw", *r, hash(r->user, r->n));
    }
}
static std::shared_ptr<Req> make(bool send, bool pers, const void* buf, int n, int peer, int tag) {
    auto r  = std::make_shared<Req>();
    r->send = send;
    r->persistent = pers;
    r->user = (double*)buf;
    r->n    = n;
    r->peer = peer;
    r->tag  = tag;
    if (!send)
        r->shadow.resize(n);
    std::lock_guard<std::mutex> g(mx);
    r->kind = pers ? kinds[std::make_tuple(send, peer, tag)]++ : 0;
    return r;
}
static void keep(MPI_Request q, std::shared_ptr<Req> r) {
    std::lock_guard<std::mutex> g(mx);
    reqs[q] = r;
}
static bool mine(MPI_Datatype t, MPI_Comm c) { return f && t == MPI_DOUBLE && c == MPI_COMM_WORLD; }
}
extern "C" {
int MPI_Send_init(const void* b, int n, MPI_Datatype t, int p, int g, MPI_Comm c, MPI_Request* q) {
    int rc = PMPI_Send_init(b, n, t, p, g, c, q);
    if (mpilog::mine(t, c))
        mpilog::keep(*q, mpilog::make(true, true, b, n, p, g));
    return rc;
}
int MPI_Recv_init(void* b, int n, MPI_Datatype t, int p, int g, MPI_Comm c, MPI_Request* q) {
    if (!mpilog::mine(t, c))
        return PMPI_Recv_init(b, n, t, p, g, c, q);
    auto r = mpilog::make(false, true, b, n, p, g);
    int rc = PMPI_Recv_init(r->shadow.data(), n, t, p, g, c, q);
    mpilog::keep(*q, r);
    return rc;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int p, int g, MPI_Comm c, MPI_Request* q) {
    if (!mpilog::mine(t, c))
        return PMPI_Isend(b, n, t, p, g, c, q);
    auto r = mpilog::make(true, false, b, n, p, g);
    mpilog::starting(r);
    int rc = PMPI_Isend(b, n, t, p, g, c, q);
    mpilog::keep(*q, r);
    return rc;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int p, int g, MPI_Comm c, MPI_Request* q) {
    if (!mpilog::mine(t, c))
        return PMPI_Irecv(b, n, t, p, g, c, q);
    auto r = mpilog::make(false, false, b, n, p, g);
    mpilog::starting(r);
    int rc = PMPI_Irecv(r->shadow.data(), n, t, p, g, c, q);
    mpilog::keep(*q, r);
    return rc;
}
int MPI_Start(MPI_Request* q) {
    auto r = mpilog::f ? mpilog::find(*q) : nullptr;
    if (r) {
        mpilog::dawdle();
        mpilog::starting(r);
    }
    return PMPI_Start(q);
}
int MPI_Startall(int n, MPI_Request* q) {
    if (!mpilog::f || n == 0 || !mpilog::find(q[0]))
        return PMPI_Startall(n, q);
    for (int i = 0; i < n; ++i)
        MPI_Start(&q[i]);
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* q, MPI_Status* s) {
    auto r = mpilog::f ? mpilog::find(*q) : nullptr;
    if (!r)
        return PMPI_Wait(q, s);
    mpilog::dawdle();
    MPI_Request old = *q;
    int rc = PMPI_Wait(q, s);
    mpilog::done(r);
    if (!r->persistent) {
        std::lock_guard<std::mutex> g(mpilog::mx);
        mpilog::reqs.erase(old);
    }
    return rc;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* s) {
    if (!mpilog::f || n == 0 || !mpilog::find(q[0]))
        return PMPI_Waitall(n, q, s);
    for (int i = 0; i < n; ++i)
        MPI_Wait(&q[i], MPI_STATUS_IGNORE);
    return MPI_SUCCESS;
}
}
#endif
