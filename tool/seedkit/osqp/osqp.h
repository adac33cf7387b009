// Stand-in for OSQP 0.6 used by the demonstration: records what it is given and answers through a hook.
#pragma once
#include <cstdlib>
#include <cstring>
#include <functional>
#include <vector>
typedef long long c_int;
typedef double c_float;
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#define OSQP_INFTY ((c_float)1e30)
#define OSQP_NULL 0
struct csc { c_int nzmax, m, n; c_int *p, *i; c_float *x; c_int nz; };
struct OSQPSettings { c_float rho, sigma; c_int scaling, adaptive_rho, adaptive_rho_interval; c_float adaptive_rho_tolerance, adaptive_rho_fraction; c_int max_iter;
    c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha; int linsys_solver; c_float delta; c_int polish, polish_refine_iter, verbose, scaled_termination, check_termination, warm_start; c_float time_limit; };
struct OSQPData { c_int n, m; csc *P, *A; c_float *q, *l, *u; };
struct OSQPSolution { c_float *x, *y; };
struct OSQPInfo { c_int iter; char status[32]; c_int status_val, status_polish; c_float obj_val, pri_res, dua_res, setup_time, solve_time, update_time, polish_time, run_time; };
struct OSQPWorkspace { OSQPData *data; OSQPSettings *settings; OSQPSolution *solution; OSQPInfo *info; c_int n, m; };
struct Qp
{
    static inline std::vector<double> q, l, u, x, y, wx, wy;
    static inline std::vector<std::vector<double>> P, A; // dense copies
    static inline OSQPSettings set;
    static inline bool warmed = false, ordered = true;
    static inline int fail = 0, liveWork = 0, liveCsc = 0, liveRaw = 0, twice = 0;
    static inline int status = OSQP_SOLVED;
    static inline double value = 0;
    static std::vector<std::vector<double>> dense(const csc *M)
    {
        std::vector<std::vector<double>> r(M->m, std::vector<double>(M->n, 0.0));
        if (M->p[0] != 0 || M->p[M->n] > M->nzmax) ordered = false;
        for (c_int c = 0; c < M->n; c++)
            for (c_int k = M->p[c]; k < M->p[c + 1]; k++)
            {
                if (k > M->p[c] && M->i[k] <= M->i[k - 1]) ordered = false;
                if (M->i[k] < 0 || M->i[k] >= M->m) { ordered = false; continue; }
                r[M->i[k]][c] += M->x[k];
            }
        return r;
    }
};
inline void *c_malloc(size_t n) { Qp::liveRaw++; void *p = std::malloc(n); std::memset(p, 0x5a, n); return p; }
inline void c_free(void *p) { if (p) { Qp::liveRaw--; std::free(p); } }
inline csc *csc_spalloc(c_int m, c_int n, c_int nz, c_int, c_int)
{
    csc *M = (csc *)std::calloc(1, sizeof(csc));
    M->m = m; M->n = n; M->nzmax = nz; M->nz = -1;
    M->p = (c_int *)std::calloc(n + 1, sizeof(c_int)); M->i = (c_int *)std::calloc(nz + 1, sizeof(c_int)); M->x = (c_float *)std::calloc(nz + 1, sizeof(c_float));
    Qp::liveCsc++;
    return M;
}
inline void csc_spfree(csc *M) { if (M) { std::free(M->p); std::free(M->i); std::free(M->x); std::free(M); Qp::liveCsc--; } }
inline void osqp_set_default_settings(OSQPSettings *s)
{
    std::memset(s, 0, sizeof *s);
    s->rho = 0.1; s->sigma = 1e-6; s->scaling = 10; s->adaptive_rho = 1; s->max_iter = 4000; s->eps_abs = s->eps_rel = 1e-3; s->eps_prim_inf = s->eps_dual_inf = 1e-4;
    s->alpha = 1.6; s->delta = 1e-6; s->polish_refine_iter = 3; s->verbose = 1; s->check_termination = 25; s->warm_start = 1;
}
inline c_int osqp_setup(OSQPWorkspace **w, const OSQPData *d, const OSQPSettings *s)
{
    Qp::q.assign(d->q, d->q + d->n); Qp::l.assign(d->l, d->l + d->m); Qp::u.assign(d->u, d->u + d->m);
    Qp::ordered = true;
    Qp::P = Qp::dense(d->P); Qp::A = Qp::dense(d->A);
    Qp::set = *s; Qp::warmed = false;
    if (Qp::fail == 1) return 1;
    *w = (OSQPWorkspace *)std::calloc(1, sizeof(OSQPWorkspace));
    Qp::liveWork++;
    (*w)->n = d->n; (*w)->m = d->m;
    if (Qp::fail == 2) return 7;
    (*w)->solution = (OSQPSolution *)std::calloc(1, sizeof(OSQPSolution));
    (*w)->info = (OSQPInfo *)std::calloc(1, sizeof(OSQPInfo));
    return 0;
}
inline c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y) { Qp::warmed = true; Qp::wx.assign(x, x + w->n); Qp::wy.assign(y, y + w->m); return 0; }
inline c_int osqp_update_warm_start(OSQPWorkspace *, c_int) { return 0; }
inline c_int osqp_solve(OSQPWorkspace *w)
{
    Qp::x.resize(w->n); Qp::y.resize(w->m);
    w->solution->x = Qp::x.data(); w->solution->y = Qp::y.data();
    w->info->status_val = Qp::status; w->info->obj_val = Qp::value;
    return 0;
}
inline c_int osqp_cleanup(OSQPWorkspace *w) { if (w) { std::free(w->solution); std::free(w->info); std::free(w); Qp::liveWork--; } return 0; }
