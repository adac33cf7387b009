// Contract model of the OSQP 0.6 interface: records the problem it is given, answers as scripted, and keeps ghost
// ownership flags (nothing is really freed, so that use after release and double release are observable).
#pragma once
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <v.hpp>
#ifdef V_NATIVE
#include <set>
#include <sys/mman.h>
// every object owned by the controller lives on pages of its own, which become inaccessible when it is released
inline std::set<const void *> &qpAlive()
{
    static std::set<const void *> s;
    return s;
}
inline void *qpPages(size_t n, int fill)
{
    void *v = mmap(nullptr, (n + 4095) / 4096 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    std::memset(v, fill, n);
    qpAlive().insert(v);
    return v;
}
#define QP_ALIVE(p) (qpAlive().count(p) == 1)
#define QP_BORN(p)
#define QP_RETIRE(p) (qpAlive().erase(p), mprotect((void *)(p), (sizeof(*(p)) + 4095) / 4096 * 4096, PROT_NONE))
#define QP_NEW(T) new (qpPages(sizeof(T), 0)) T()
#else
#define QP_ALIVE(p) ((p)->alive == 1)
#define QP_BORN(p) (p)->alive = 1
#define QP_RETIRE(p) (p)->alive = 0
#define QP_NEW(T) new T()
#endif

typedef long long c_int;
typedef double c_float;

#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#ifndef OSQP_INFTY
#define OSQP_INFTY ((c_float)1e30)
#endif
#define OSQP_NULL 0

struct csc
{
    c_int nzmax;
    c_int m, n;
    c_int *p;
    c_int *i;
    c_float *x;
    c_int nz;
    // ghost
    std::vector<c_int> gp, gi;
    std::vector<c_float> gx;
    int alive;
};

struct OSQPSettings
{
    c_float rho, sigma;
    c_int scaling;
    c_int adaptive_rho, adaptive_rho_interval;
    c_float adaptive_rho_tolerance, adaptive_rho_fraction;
    c_int max_iter;
    c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha;
    int linsys_solver;
    c_float delta;
    c_int polish, polish_refine_iter;
    c_int verbose, scaled_termination, check_termination, warm_start;
    c_float time_limit;
    int alive;
};

struct OSQPData
{
    c_int n, m;
    csc *P, *A;
    c_float *q, *l, *u;
    int alive;
};

struct OSQPSolution
{
    c_float *x, *y;
};

struct OSQPInfo
{
    c_int iter;
    char status[32];
    c_int status_val;
    c_int status_polish;
    c_float obj_val, pri_res, dua_res;
    c_float setup_time, solve_time, update_time, polish_time, run_time;
};

struct OSQPWorkspace
{
    OSQPData *data;
    OSQPSettings *settings;
    OSQPSolution *solution;
    OSQPInfo *info;
    // ghost
    c_int n, m;
    std::vector<double> sx, sy;
    int alive;
};

// what the solver has been given, and what is still allocated
struct QP
{
    static inline int setups = 0, solves = 0;
    static inline int liveWork = 0, liveCsc = 0, liveRaw = 0;
    static inline c_int n = 0, m = 0;
    static inline std::vector<double> q, l, u;
    static inline c_int Pm = 0, Pn = 0, Pnz = 0, Am = 0, An = 0, Anz = 0;
    static inline std::vector<c_int> Pp, Pi, Ap, Ai;
    static inline std::vector<c_float> Px, Ax;
    static inline OSQPSettings set = OSQPSettings();
    static inline int warmed = 0, warmoff = 0;
    static inline std::vector<double> wx, wy;
};

struct RawMem
{
    size_t bytes;
    template <class T> operator T *() const
    {
#ifdef V_NATIVE
        V::check(bytes >= sizeof(T) - sizeof(int) || bytes >= sizeof(T), "size of an allocation");
        T *p = static_cast<T *>(qpPages(sizeof(T), 0x5a)); // as undefined as malloc leaves it
#else
        T *p = new T;
#endif
        QP_BORN(p);
        QP::liveRaw++;
        return p;
    }
};
inline RawMem c_malloc(size_t n)
{
    RawMem r;
    r.bytes = n;
    return r;
}
template <class T> void c_free(T *p)
{
    if (p)
    {
        V::check(QP_ALIVE(p), "memory released once");
        QP_RETIRE(p);
        QP::liveRaw--;
    }
}

inline csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet)
{
    csc *M = QP_NEW(csc);
    M->m = m;
    M->n = n;
    M->nzmax = nzmax;
    M->nz = triplet ? 0 : -1;
    M->gp.resize(triplet ? nzmax : n + 1);
    M->gi.resize(nzmax);
    M->gx.resize(values ? nzmax : 0);
    M->p = M->gp.data();
    M->i = M->gi.data();
    M->x = M->gx.data();
    QP_BORN(M);
    QP::liveCsc++;
    return M;
}
inline void csc_spfree(csc *A)
{
    if (A)
    {
        V::check(QP_ALIVE(A), "matrix released once");
        QP_RETIRE(A);
        QP::liveCsc--;
    }
}
inline void osqp_set_default_settings(OSQPSettings *s)
{
    V::check(QP_ALIVE(s), "settings in use");
    s->rho = 0.1;
    s->sigma = 1e-6;
    s->scaling = 10;
    s->adaptive_rho = 1;
    s->adaptive_rho_interval = 0;
    s->adaptive_rho_tolerance = 5;
    s->adaptive_rho_fraction = 0.4;
    s->max_iter = 4000;
    s->eps_abs = 1e-3;
    s->eps_rel = 1e-3;
    s->eps_prim_inf = 1e-4;
    s->eps_dual_inf = 1e-4;
    s->alpha = 1.6;
    s->linsys_solver = 0;
    s->delta = 1e-6;
    s->polish = 0;
    s->polish_refine_iter = 3;
    s->verbose = 1;
    s->scaled_termination = 0;
    s->check_termination = 25;
    s->warm_start = 1;
    s->time_limit = 0;
}
inline c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *data, const OSQPSettings *settings)
{
    QP::setups++;
    V::check(QP_ALIVE(data), "problem data in use");
    V::check(QP_ALIVE(settings), "settings in use");
    V::check(data->P != nullptr && data->A != nullptr, "problem matrices given");
    V::check(QP_ALIVE(data->P) && QP_ALIVE(data->A), "problem matrices in use");
    V::check(data->P->m == data->n && data->P->n == data->n, "size of P");
    V::check(data->A->m == data->m && data->A->n == data->n, "size of A");
    QP::n = data->n;
    QP::m = data->m;
    QP::q = std::vector<double>(data->q, data->q + data->n);
    QP::l = std::vector<double>(data->l, data->l + data->m);
    QP::u = std::vector<double>(data->u, data->u + data->m);
    QP::Pp = data->P->gp;
    QP::Pi = data->P->gi;
    QP::Px = data->P->gx;
    QP::Ap = data->A->gp;
    QP::Ai = data->A->gi;
    QP::Ax = data->A->gx;
    QP::Pm = data->P->m;
    QP::Pn = data->P->n;
    QP::Pnz = data->P->nzmax;
    QP::Am = data->A->m;
    QP::An = data->A->n;
    QP::Anz = data->A->nzmax;
    QP::set = *settings;
    QP::warmed = 0;
    QP::warmoff = 0;
    int how = V::param(V::nm("setup", QP::setups));
    if (how == 1)
        return 1;
    OSQPWorkspace *w = QP_NEW(OSQPWorkspace);
    w->n = data->n;
    w->m = data->m;
    QP_BORN(w);
    w->data = nullptr;
    w->settings = nullptr;
    w->solution = nullptr;
    w->info = nullptr;
    QP::liveWork++;
    *workp = w;
    if (how == 2)
        return 7;
    w->solution = new OSQPSolution();
    w->info = new OSQPInfo();
    w->info->status_val = OSQP_UNSOLVED;
    w->solution->x = nullptr;
    w->solution->y = nullptr;
    return 0;
}
inline c_int osqp_warm_start(OSQPWorkspace *work, const c_float *x, const c_float *y)
{
    V::check(work != nullptr && QP_ALIVE(work), "workspace in use");
    QP::warmed++;
    QP::wx = std::vector<double>(x, x + work->n);
    QP::wy = std::vector<double>(y, y + work->m);
    return 0;
}
inline c_int osqp_update_warm_start(OSQPWorkspace *work, c_int on)
{
    V::check(work != nullptr && QP_ALIVE(work), "workspace in use");
    if (on == 0)
        QP::warmoff = 1;
    else
        QP::warmoff = 0;
    return 0;
}
inline c_int osqp_solve(OSQPWorkspace *work)
{
    V::check(work != nullptr && QP_ALIVE(work), "workspace in use");
    int k = QP::setups;
    QP::solves++;
    work->info->status_val = V::integer(V::nm("st", k), -10, 7);
    work->info->obj_val = V::real(V::nm("obj", k));
    if (V::param(V::nm("nosol", k)) == 0)
    {
        work->sx = V::stdvec(V::nm("sol", k), (int)work->n);
        work->sy = V::stdvec(V::nm("dual", k), (int)work->m);
        work->solution->x = work->sx.data();
        work->solution->y = work->sy.data();
    }
    return 0;
}
inline c_int osqp_cleanup(OSQPWorkspace *work)
{
    if (work)
    {
        V::check(QP_ALIVE(work), "workspace released once");
        QP_RETIRE(work);
        QP::liveWork--;
    }
    return 0;
}
