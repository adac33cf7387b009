seed('s01-slack-bounds-late', 'C01',
 'hard constraints requested through the parameters without any bound being set afterwards',
 'the bounds of the slack variable are not handed to the solver until some other bound changes',
 [(I + 'NLMPC/NLOptimizer.hpp', '''            enable_warm_start = nl_param->enable_warm_start;

            updateBounds();''', '''            enable_warm_start = nl_param->enable_warm_start;
            if (is_first_iteration)
            {
                updateBounds();
            }''')],
 r'''
int main()
{
    NLMPC<> c(1, 2, 1, 4, 3, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    auto &o = *nlopt::opt::self;
    NLParameters p;
    p.hard_constraints = true;
    c.setOptimizerParameters(p);
    CHECK(o.ub[o.n - 1] == 0 && o.lb[o.n - 1] == 0);
    cvec<Eigen::Dynamic> x(1), u(2);
    x << 2;
    u << 1, 2;
    c.optimize(x, u);
    p.hard_constraints = false;
    c.setOptimizerParameters(p);
    CHECK(std::isinf(o.ub[o.n - 1]) && std::isinf(o.lb[o.n - 1]));
    return bad;
}''', 'n')
seed('s02-inverse-input-scale', 'C03',
 'two inputs with different scalings and an initial guess or warm start',
 'the map from applied inputs back to decision moves uses the scaling of the first input for every input',
 [(I + 'NLMPC/Mapping.hpp', 'Su2zMat(i, i) = 1.0 / input_scaling(i);', 'Su2zMat(i, i) = 1.0 / Sz2uMat(0, i > 0 ? 0 : i);')],
 r'''
int main()
{
    NLMPC<> c(1, 2, 1, 3, 2, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    cvec<Eigen::Dynamic> x(1), u(2), s(2);
    s << 2, 5;
    x << 3;
    u << 8, 10;
    c.setInputScale(s);
    c.optimize(x, u);
    auto &o = *nlopt::opt::self;
    for (int k = 0; k < 2; k++)
    {
        CHECK(near(o.guess[3 + 2 * k], 4));
        CHECK(near(o.guess[3 + 2 * k + 1], 2));
    }
    return bad;
}''', 'n')
seed('s03-terminal-row-gradient', 'C09',
 'a cost that depends on the terminal row of the input trajectory',
 'the objective gradient of the last move misses its effect through the terminal input row',
 [(I + 'NLMPC/Objective.hpp', 'u0(ph(), k) = u0(ph(), k) + du;', 'u0(ph(), k) = u0((ph() - 1), k) - du;'),
  (I + 'NLMPC/Objective.hpp', 'u0(ph(), k) = u0(ph(), k) - du;', 'u0(ph(), k) = u0((ph() - 1), k);')],
 r'''
int main()
{
    const int ph = 3;
    NLMPC<> c(1, 1, 1, ph, 2, 0, 0);
    c.setObjectiveFunction([&](const auto &, const auto &, const auto &u, const double &) { return 5.0 * u(ph, 0) + u(ph - 1, 0); });
    auto &o = *nlopt::opt::self;
    std::vector<double> z(o.n, 0.3), g(o.n);
    o.obj(z, g, o.objd);
    CHECK(near(g[ph + 0], 0.0, 1e-4));
    CHECK(near(g[ph + 1], 7.0 - 1.0, 1e-4));
    return bad;
}''', 'n')
seed('s04-stale-output-after-failure', 'C11',
 'a solve that succeeds followed by a solve in which the solver throws',
 'after a failed solve the optimal output sequence still is the one of an earlier solve',
 [(I + 'NLMPC/NLOptimizer.hpp', '''                sequence.input.setZero();
                sequence.output.setZero();
            }

            // update the result''', '''                sequence.input.setZero();
                if (is_first_iteration)
                {
                    sequence.output.setZero();
                }
            }

            // update the result''')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 3, 2, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    c.setOutputFunction([](auto &y, const auto &x, const auto &u, const unsigned int &) { y(0) = x(0) + 2 * u(0) + 1; });
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 2;
    u << 1;
    c.optimize(x, u);
    CHECK(c.getOptimalSequence().output.cwiseAbs().maxCoeff() > 0);
    nlopt::opt::self->solve = [](nlopt::opt &, const std::vector<double> &) -> std::vector<double> { throw std::runtime_error("no"); };
    auto r = c.optimize(x, u);
    CHECK(r.status == ResultStatus::ERROR);
    CHECK(std::isinf(r.cost));
    CHECK(c.getOptimalSequence().state.cwiseAbs().maxCoeff() == 0);
    CHECK(c.getOptimalSequence().input.cwiseAbs().maxCoeff() == 0);
    CHECK(c.getOptimalSequence().output.cwiseAbs().maxCoeff() == 0);
    return bad;
}''', 'n')
seed('s05-warm-start-latched', 'C12',
 'warm start enabled, two successful solves, then warm start disabled again before a third',
 'once the warm start has been enabled it can no longer be switched off',
 [(I + 'NLMPC/NLOptimizer.hpp', 'enable_warm_start = nl_param->enable_warm_start;', 'enable_warm_start = nl_param->enable_warm_start || (enable_warm_start && !is_first_iteration);')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 3, 2, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    nlopt::opt::self->solve = [](nlopt::opt &o, const std::vector<double> &) { std::vector<double> z(o.n); for (unsigned i = 0; i < o.n; i++) z[i] = 10 + i; return z; };
    NLParameters p;
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 2;
    u << 1;
    p.enable_warm_start = true;
    c.setOptimizerParameters(p);
    c.optimize(x, u);
    c.optimize(x, u);
    CHECK(near(nlopt::opt::self->guess[0], 11));
    p.enable_warm_start = false;
    c.setOptimizerParameters(p);
    c.optimize(x, u);
    for (int i = 0; i < 3; i++)
        CHECK(near(nlopt::opt::self->guess[i], 2));
    return bad;
}''', 'n')
seed('s06-evaluation-limit', 'C13',
 'an evaluation limit set, then switched off with zero',
 'a zero evaluation limit (no limit) is not forwarded, so that an earlier limit stays in force',
 [(I + 'NLMPC/NLOptimizer.hpp', '            innerOpt->set_maxeval(nl_param->maximum_iteration);', '''            if (nl_param->maximum_iteration != 0)
            {
                innerOpt->set_maxeval(nl_param->maximum_iteration);
            }''')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 3, 2, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    NLParameters p;
    p.maximum_iteration = 7;
    c.setOptimizerParameters(p);
    CHECK(nlopt::opt::self->maxeval == 7);
    p.maximum_iteration = 0;
    c.setOptimizerParameters(p);
    CHECK(nlopt::opt::self->maxeval == 0);
    return bad;
}''', 'n')
seed('s07-feasible-sum', 'C14',
 'equality constraints violated in opposite directions',
 'opposite violations of two user equalities cancel out in the feasibility flag',
 [(I + 'NLMPC/Constraints.hpp', 'ceq_user.array().abs().maxCoeff() > eq_tolerance', 'std::abs(ceq_user.array().sum()) > eq_tolerance')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 3, 2, 0, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    double a = 0, b = 0;
    c.setEqConFunction([&](auto &r, const auto &, const auto &) { r(0) = a; r(1) = b; }, 0.1f);
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 2;
    u << 1;
    CHECK(c.optimize(x, u).is_feasible);
    a = 3; b = 0;
    CHECK(!c.optimize(x, u).is_feasible);
    a = 3; b = -3;
    CHECK(!c.optimize(x, u).is_feasible);
    return bad;
}''', 'n')
seed('s08-second-slope-stage', 'C06',
 'continuous time dynamics that depend on the stage index',
 'the Jacobian of the trapezoidal residual takes its second slope at the next stage index while the residual does not',
 [(I + 'NLMPC/Constraints.hpp', 'computeStateEqJacobian(Ak1, Bk1, xk1, uk, i);', 'computeStateEqJacobian(Ak1, Bk1, xk1, uk, i + 1);')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 3, 2, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    c.setDiscretizationSamplingTime(0.5);
    c.setStateSpaceFunction([](auto &dx, const auto &x, const auto &u, const unsigned int &i) { dx(0) = (1.0 + i) * x(0) + u(0); });
    auto &o = *nlopt::opt::self;
    std::vector<double> z(o.n, 0.4), g(3 * o.n), r(3), p(3), q(3);
    o.eq[0].f(3, r.data(), o.n, z.data(), g.data(), o.eq[0].d);
    for (unsigned j = 0; j < o.n; j++)
    {
        std::vector<double> a = z, b = z;
        a[j] += 1e-3;
        b[j] -= 1e-3;
        o.eq[0].f(3, p.data(), o.n, a.data(), nullptr, o.eq[0].d);
        o.eq[0].f(3, q.data(), o.n, b.data(), nullptr, o.eq[0].d);
        for (int k = 0; k < 3; k++)
            CHECK(near(g[k * o.n + j], (p[k] - q[k]) / 2e-3, 1e-5));
    }
    return bad;
}''', 'n')
seed('s09-terminal-weight', 'C16',
 'exogenous inputs that change along the horizon, with output weights and a disturbance feed-through',
 'the disturbance of a stage is taken one stage ahead of the reference it is combined with',
 [(I + 'LMPC/ProblemBuilder.hpp', '''                    uMeas_ex = uMeas.col(i - 1);
                }''', '''                    uMeas_ex = uMeas.col(std::min(i, ph() - 1));
                }''')],
 r'''
int main()
{
    const int ph = 3;
    LMPC<> c(1, 1, 1, 1, ph, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    auto one = [](double v) { mat<Eigen::Dynamic, Eigen::Dynamic> m(1, 1); m << v; return m; };
    c.setStateSpaceModel(one(0.5), one(1), one(1));
    c.setDisturbances(one(2), one(3));
    mat<Eigen::Dynamic, Eigen::Dynamic> d(1, ph);
    d << 1, 5, 9;
    c.setExogenousInputs(d);
    cvec<Eigen::Dynamic> w(1), z(1), x(1), u(1);
    w << 2;
    z << 0;
    x << 1;
    u << 1;
    c.setObjectiveWeights(w, z, z, HorizonSlice::all());
    c.optimize(x, u);
    for (int i = 0; i <= ph; i++)
        CHECK(near(Qp::q[2 * i], 2 * 3 * d(0, std::max(0, i - 1))));
    return bad;
}''', 'q')
seed('s10-first-output-bound', 'C18',
 'output bounds given as a matrix that vary along the horizon',
 'the upper output bound of the current stage is taken from the last column',
 [(I + 'LMPC/ProblemBuilder.hpp', 'maxY.col(0) = YMaxMat.col(0);', 'maxY.col(0) = YMaxMat.col(YMinMat.cols() - 1);')],
 r'''
int main()
{
    const int ph = 3;
    LMPC<> c(1, 1, 1, 1, ph, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    mat<Eigen::Dynamic, Eigen::Dynamic> lo(1, ph), hi(1, ph);
    lo << -1, -2, -3;
    hi << 4, 5, 6;
    c.setOutputBounds(lo, hi);
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 1;
    u << 1;
    c.optimize(x, u);
    for (int i = 0; i <= ph; i++)
    {
        CHECK(near(Qp::l[4 * (ph + 1) + i], lo(std::max(0, i - 1))));
        CHECK(near(Qp::u[4 * (ph + 1) + i], hi(std::max(0, i - 1))));
    }
    return bad;
}''', 'q')
seed('s11-weights-slice-first', 'C02',
 'objective weights given for a slice that starts at the first stage but were different before',
 'the weights of the current stage (row zero of the problem) are not updated by a slice starting at zero',
 [(I + 'LMPC/ProblemBuilder.hpp', '''            if (index == 0)
            {
                wU.col(0) = UWeight;
            }''', '''            if (index == 1)
            {
                wU.col(0) = UWeight;
            }''')],
 r'''
int main()
{
    const int ph = 3;
    LMPC<> c(1, 1, 1, 1, ph, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    auto one = [](double v) { mat<Eigen::Dynamic, Eigen::Dynamic> m(1, 1); m << v; return m; };
    c.setStateSpaceModel(one(0.5), one(1), one(1));
    cvec<Eigen::Dynamic> w(1), z(1), x(1), u(1);
    w << 2;
    z << 0;
    x << 1;
    u << 1;
    c.setObjectiveWeights(z, w, z, HorizonSlice{0, 1});
    c.optimize(x, u);
    for (int i = 0; i <= ph; i++)
        CHECK(near(Qp::P[2 * i + 1][2 * i + 1], i <= 1 ? 2 : 0));
    c.setObjectiveWeights(z, 3 * w, z, HorizonSlice{1, 2});
    c.optimize(x, u);
    for (int i = 0; i <= ph; i++)
        CHECK(near(Qp::P[2 * i + 1][2 * i + 1], i <= 1 ? 2 : i == 2 ? 6 : 0));
    return bad;
}''', 'q')
seed('s12-input-sequence-shift', 'C19',
 'a linear solve whose optimal inputs differ from stage to stage',
 'the last row of the reported input sequence is taken one stage early',
 [(I + 'LMPC/LOptimizer.hpp', 'if (i + 1 < ph() + 1)', 'if (i + 1 < ph())')],
 r'''
int main()
{
    const int ph = 3;
    LMPC<> c(1, 1, 1, 1, ph, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 1;
    u << 1;
    Qp::x.resize(2 * (ph + 1) + ph);
    for (size_t i = 0; i < Qp::x.size(); i++)
        Qp::x[i] = 1.0 + i;
    c.optimize(x, u);
    for (int i = 0; i <= ph; i++)
        CHECK(near(c.getOptimalSequence().input(i, 0), Qp::x[2 * std::min(i + 1, ph) + 1]));
    return bad;
}''', 'q')
seed('s13-small-entries-dropped', 'C20',
 'a model with a coefficient below 1e-6',
 'small but non-zero coefficients are dropped from the matrix given to the solver',
 [(I + 'LMPC/ProblemBuilder.hpp', 'Asparse = A.sparseView();', 'Asparse = A.sparseView(1.0, 1e-6);')],
 r'''
int main()
{
    const int ph = 2;
    LMPC<> c(1, 1, 1, 1, ph, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    auto one = [](double v) { mat<Eigen::Dynamic, Eigen::Dynamic> m(1, 1); m << v; return m; };
    c.setStateSpaceModel(one(0.5), one(1e-7), one(1));
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 1;
    u << 1;
    c.optimize(x, u);
    CHECK(Qp::ordered);
    CHECK(near(Qp::A[2][0], 0.5));
    CHECK(Qp::A[2][1] == 1e-7);
    return bad;
}''', 'q')
seed('s14-workspace-kept', 'C27',
 'a solver set-up that fails after allocating its workspace',
 'the workspace of a failed set-up is never released',
 [(I + 'LMPC/LOptimizer.hpp', '            osqp_cleanup(work);\n            work = nullptr;', '            if (work && exitflag == 0)\n            {\n                osqp_cleanup(work);\n            }\n            work = nullptr;')],
 r'''
int main()
{
    {
        LMPC<> c(1, 1, 1, 1, 2, 2);
        c.setLoggerLevel(Logger::log_level::NONE);
        cvec<Eigen::Dynamic> x(1), u(1);
        x << 1;
        u << 1;
        c.optimize(x, u);
        Qp::fail = 2;
        c.optimize(x, u);
        Qp::fail = 0;
        c.optimize(x, u);
    }
    CHECK(Qp::liveWork == 0);
    CHECK(Qp::liveCsc == 0);
    CHECK(Qp::liveRaw == 0);
    return bad;
}''', 'q')

seed('s15-trapezoid-next-input', 'C05',
 'continuous time dynamics that depend on an input which changes from stage to stage',
 'the second slope of the trapezoidal residual takes the input of the next stage',
 [(I + 'NLMPC/Constraints.hpp', 'model->vectorField(fk1, xk1, uk, i);', 'model->vectorField(fk1, xk1, Umat.row(i + 1).transpose(), i);')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 3, 2, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    c.setDiscretizationSamplingTime(0.5);
    c.setStateSpaceFunction([](auto &dx, const auto &x, const auto &u, const unsigned int &) { dx(0) = x(0) + 2 * u(0); });
    auto &o = *nlopt::opt::self;
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 0.25;
    u << 0;
    c.optimize(x, u);
    std::vector<double> z(o.n), r(3), t = {0.25, 1, 2, 3};
    z = {1, 2, 3, 0.7, -0.9, 0};
    o.eq[0].f(3, r.data(), o.n, z.data(), nullptr, o.eq[0].d);
    for (int k = 0; k < 3; k++)
    {
        double uk = z[3 + std::min(k, 1)];
        CHECK(near(r[k], t[k] + 0.25 * (t[k] + t[k + 1] + 4 * uk) - t[k + 1]));
    }
    return bad;
}''', 'n')
seed('s16-stale-outputs-in-jacobian', 'C08',
 'a user inequality that uses the outputs, and an output function of the state',
 'the backward perturbation of a state uses the outputs of the forward one',
 [(I + 'NLMPC/Constraints.hpp', '''                    ieqUser(f_minus, x0, y0_minus, u0, e0);

                    x0(ix, j) += dx;''', '''                    ieqUser(f_minus, x0, x0(ix, j) < 0.0 ? y0_plus : y0_minus, u0, e0);

                    x0(ix, j) += dx;''')],
 r'''
int main()
{
    for (double v : {0.5, -0.5})
    {
        NLMPC<> c(1, 1, 1, 3, 2, 1, 0);
        c.setLoggerLevel(Logger::log_level::NONE);
        c.setOutputFunction([](auto &y, const auto &x, const auto &u, const unsigned int &) { y(0) = 3 * x(0); });
        c.setIneqConFunction([](auto &r, const auto &, const auto &y, const auto &, const double &) { r(0) = y(2, 0); });
        auto &o = *nlopt::opt::self;
        std::vector<double> z(o.n, v), g(o.n), r(1);
        o.ineq[0].f(1, r.data(), o.n, z.data(), g.data(), o.ineq[0].d);
        CHECK(near(r[0], 3 * v));
        for (unsigned j = 0; j < o.n; j++)
            CHECK(near(g[j], j == 1 ? 3 : 0, 1e-4));
    }
    return bad;
}''', 'n')
seed('s17-last-input-clamped', 'C17',
 'input bounds and a measured last input outside them',
 'the dynamics start from the measured last input clamped to its bounds instead of the measured one',
 [(I + 'LMPC/ProblemBuilder.hpp', 'leq.middleRows(nx(), nu()) = -u0;', 'leq.middleRows(nx(), nu()) = -u0.cwiseMax(minU.col(0)).cwiseMin(maxU.col(0));')],
 r'''
int main()
{
    LMPC<> c(1, 1, 1, 1, 2, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    cvec<Eigen::Dynamic> x(1), u(1), lo(1), hi(1);
    x << 1;
    u << 5;
    lo << -1;
    hi << 2;
    c.optimize(x, u);
    CHECK(near(Qp::l[1], -5));
    c.setInputBounds(lo, hi, HorizonSlice::all());
    c.optimize(x, u);
    CHECK(near(Qp::l[1], -5));
    CHECK(near(Qp::u[1], -5));
    return bad;
}''', 'q')
seed('s18-short-sample-first-order', 'C21',
 'a sample time below one millisecond',
 'for short sample times the discretisation silently switches to the first-order approximation',
 [(I + 'Utils.hpp', '''    // building the square matrix
    mat<nx + nu, nx + nu> res;
    res.setZero();
    res.block(0, 0, nx, nx + nu) = AB;

    // computing the exponential matrix
    res = res.exp();
''', '''    // building the square matrix
    mat<nx + nu, nx + nu> res;
    res.setZero();
    res.block(0, 0, nx, nx + nu) = AB;

    // computing the exponential matrix
    if (Ts < 1e-3)
    {
        res.block(0, 0, nx, nx) += mat<nx, nx>::Identity();
    }
    else
    {
        res = res.exp();
    }
''')],
 r'''
#include <mpc/Types.hpp>
#include <mpc/Utils.hpp>
using namespace mpc;
int main()
{
    mat<2, 2> A, Ad;
    mat<2, 1> B, Bd;
    A << 0, 1, -4000, -30;
    B << 0, 500;
    for (double Ts : {5e-4, 2e-3})
    {
        discretization<2, 1>(A, B, Ts, Ad, Bd);
        // Taylor series, converges quickly here
        mat<3, 3> M = mat<3, 3>::Zero(), T = mat<3, 3>::Identity(), S = T;
        M.block(0, 0, 2, 2) = A * Ts;
        M.block(0, 2, 2, 1) = B * Ts;
        for (int k = 1; k < 40; k++)
        {
            T = T * M / k;
            S += T;
        }
        for (int i = 0; i < 2; i++)
        {
            CHECK(near(Ad(i, 0), S(i, 0), 1e-7) && near(Ad(i, 1), S(i, 1), 1e-7));
            CHECK(near(Bd(i, 0), S(i, 2), 1e-7));
        }
    }
    return bad;
}''', '')
seed('s19-disturbance-block-when-wide', 'C21',
 'a model with more disturbances than inputs',
 'the disturbance columns are sampled at the input offset plus the number of disturbances',
 [(I + 'Utils.hpp', 'Bed = res.block(0, nx + nu, nx, nud);', 'Bed = res.block(0, nx + (nud > nu ? 1 : nu), nx, nud);')],
 r'''
#include <mpc/Types.hpp>
#include <mpc/Utils.hpp>
using namespace mpc;
int main()
{
    mat<1, 1> A, Ad;
    mat<1, 2> B, Bd;
    mat<1, 3> Be, Bed;
    A << 0;
    B << 2, 4;
    Be << 3, 5, 7;
    discretization<1, 2, 3>(A, B, Be, 0.5, Ad, Bd, Bed);
    CHECK(near(Ad(0), 1) && near(Bd(0), 1) && near(Bd(1), 2));
    CHECK(near(Bed(0), 1.5) && near(Bed(1), 2.5) && near(Bed(2), 3.5));
    return bad;
}''', '')
seed('s20-midpoint-time', 'C22',
 'three or more integration steps of a time-dependent system',
 'the third slope of later steps is evaluated at the start of the step',
 [(I + 'Integrator.hpp', 'k3 = m_func(t + h / 2.0, sol', 'k3 = m_func(i > 1 ? t : t + h / 2.0, sol')],
 r'''
#include <mpc/Types.hpp>
#include <mpc/Integrator.hpp>
using namespace mpc;
int main()
{
    RK4<1> rk([](double t, const cvec<1> &) { return cvec<1>(cvec<1>::Constant(t * t)); });
    cvec<1> x = cvec<1>::Zero();
    for (int n = 1; n < 7; n++)
    {
        double T = 0.25 * n;
        CHECK(near(rk.run(0, x, 0.25, n)(0), T * T * T / 3));
    }
    return bad;
}''', '')
seed('s21-moving-average', 'C23',
 'more than fifty solutions since the last reset',
 'after fifty solutions the average is a moving average',
 [(I + 'Profiler.hpp', 'stats.averageSolutionTime = (1.0 / stats.numberOfSolutions) * (time + (stats.numberOfSolutions - 1) * stats.averageSolutionTime);',
  'const int n = std::min(stats.numberOfSolutions, 50);\n                stats.averageSolutionTime = (1.0 / n) * (time + (n - 1) * stats.averageSolutionTime);')],
 r'''
#include <mpc/Types.hpp>
#include <mpc/Profiler.hpp>
#include <thread>
using namespace mpc;
int main()
{
    Profiler p;
    for (int i = 0; i < 80; i++)
    {
        p.solutionStart();
        std::this_thread::sleep_for(std::chrono::milliseconds(i < 40 ? 1 : 3));
        p.solutionEnd(Result<1>());
    }
    auto &s = p.getStats();
    CHECK(near(s.averageSolutionTime.count(), s.totalSolutionTime.count() / 80, 1e-9));
    return bad;
}''', '')
seed('s22-prefix-survives-reset', 'C24',
 'a reset while the level is the default one',
 'the prefix survives a reset when the level already is the default',
 [(I + 'Logger.hpp', '            prefix = "";\n', '            if (thresholdLevel != log_level::NORMAL)\n            {\n                prefix = "";\n            }\n')],
 r'''
#include <mpc/Types.hpp>
#include <mpc/Logger.hpp>
#include <sstream>
using namespace mpc;
int main()
{
    std::ostringstream o;
    Logger &l = Logger::instance();
    l.setStream(&o).setLevel(Logger::log_level::NORMAL).setPrefix("one").reset();
    l.log(Logger::log_type::INFO) << "x";
    CHECK(o.str() == "[MPC++] x");
    return bad;
}''', '')
seed('s23-dynamic-int-operand', 'C25',
 'a compile-time size added to a run-time integer dimension',
 'the run-time marker is used as a number',
 [(I + 'Dim.hpp', 'return Size(make_dimension(value + v, is_static(value, v)));', 'return Size(make_dimension(value + v, is_static(value, value)));')],
 r'''
#include <mpc/Types.hpp>
#include <mpc/Dim.hpp>
using namespace mpc;
int main()
{
    Size a(4);
    int d = Eigen::Dynamic;
    CHECK((int)(a + d) == Eigen::Dynamic);
    CHECK((int)(a + 3) == 7);
    CHECK((int)(Size(d) + 3) == Eigen::Dynamic);
    return bad;
}''', '')
seed('s24-negative-slack', 'C04',
 'a decision vector with a negative slack variable',
 'the slack handed to the user functions is clipped at zero',
 [(I + 'NLMPC/Mapping.hpp', 'slack = x(x.size() - 1);', 'slack = std::max(0.0, x(x.size() - 1));')],
 r'''
int main()
{
    NLMPC<> c(2, 1, 1, 4, 3, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    double e = 0;
    c.setObjectiveFunction([&](const auto &, const auto &, const auto &, const double &s) { e = s; return 0.0; });
    auto &o = *nlopt::opt::self;
    std::vector<double> z(o.n, 0.3), g(o.n);
    for (double a : {0.0, 2.0, -1.5})
    {
        z[o.n - 1] = a;
        o.obj(z, g, o.objd);
        CHECK(e == a || near(e, a, 1e-4));
    }
    return bad;
}''', 'n')
seed('s25-stale-measured-state', 'C07',
 'an evaluation at an unchanged decision vector after the measured state changed',
 'the trajectory of the last evaluation is reused when the decision vector has not changed',
 [(I + 'NLMPC/Constraints.hpp', '''            mapping->unwrapVector(x, x0, Xmat, Umat, e);

            if (hasIneqConstraints())
            {
                Logger''', '''            if (ieqLast.size() != x.size() || ieqLast != x)
            {
                mapping->unwrapVector(x, x0, Xmat, Umat, e);
            }
            ieqLast = x;

            if (hasIneqConstraints())
            {
                Logger'''),
  (I + 'NLMPC/Constraints.hpp', '        using Base<sizer>::Xmat;', '        Eigen::VectorXd ieqLast;\n        using Base<sizer>::Xmat;')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 3, 2, 1, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    c.setIneqConFunction([](auto &v, const auto &X, const auto &, const auto &, const double &) { v(0) = X(0, 0) + X(1, 0); });
    auto &o = *nlopt::opt::self;
    std::vector<double> z(o.n, 0.3), v(8);
    cvec<Eigen::Dynamic> x(1), u(1);
    u << 0;
    for (double a : {0.3, 0.7, -1.0})
    {
        x << a;
        c.optimize(x, u);
        auto &b = o.ineq.back();
        b.f(1, v.data(), o.n, z.data(), nullptr, b.d);
        CHECK(near(v[0], a + 0.3));
        b.f(1, v.data(), o.n, z.data(), nullptr, b.d);
        CHECK(near(v[0], a + 0.3));
    }
    return bad;
}''', 'n')
seed('s26-terminal-output-index', 'C10',
 'an output function that depends on the stage index, with horizon longer than the control horizon',
 'the terminal output is computed with the index of the stage before',
 [(I + 'NLMPC/Model.hpp', 'outUser(YmatRow, Xmat.row(i), Umat.row(i), i);', 'outUser(YmatRow, Xmat.row(i), Umat.row(i), ch() < ph() && i == ph() ? i - 1 : i);')],
 r'''
int main()
{
    for (int ch = 1; ch < 4; ch++)
    {
        NLMPC<> c(1, 1, 1, 3, ch, 0, 0);
        c.setLoggerLevel(Logger::log_level::NONE);
        c.setOutputFunction([](auto &y, const auto &, const auto &, const unsigned int &k) { y(0) = k; });
        bool ok = true;
        c.setObjectiveFunction([&](const auto &, const auto &Y, const auto &, const double &) {
            for (int k = 0; k < 4; k++)
                ok = ok && near(Y(k, 0), k);
            return 0.0;
        });
        auto &o = *nlopt::opt::self;
        std::vector<double> z(o.n, 0.3), g(o.n);
        o.obj(z, g, o.objd);
        CHECK(ok);
    }
    return bad;
}''', 'n')
seed('s27-inaccurate-dual-certificate', 'C15',
 'the QP solver stopping with an inaccurate dual infeasibility certificate',
 'an inaccurate dual certificate is reported as unknown',
 [(I + 'LMPC/LOptimizer.hpp', '''            case OSQP_DUAL_INFEASIBLE_INACCURATE:
''', '')],
 r'''
int main()
{
    LMPC<> c(1, 1, 1, 1, 2, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    LParameters p;
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 1;
    u << 1;
    for (bool w : {false, true})
    {
        p.enable_warm_start = w;
        c.setOptimizerParameters(p);
        for (int st : {OSQP_PRIMAL_INFEASIBLE_INACCURATE, OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_DUAL_INFEASIBLE})
        {
            Qp::status = st;
            CHECK(c.optimize(x, u).status == ResultStatus::INFEASIBLE);
        }
    }
    return bad;
}''', 'q')
seed('s29-statistics-forgotten-after-error', 'C23',
 'a solve following one that ended with an error',
 'the execution statistics of the controller start over after a failed solve',
 [(I + 'IMPC.hpp', '            profiler.solutionStart();', '            if (optPtr->result.status == ResultStatus::ERROR)\n            {\n                profiler.reset();\n            }\n            profiler.solutionStart();')],
 r'''
int main()
{
    NLMPC<> c(1, 1, 1, 2, 2, 0, 0);
    c.setLoggerLevel(Logger::log_level::NONE);
    auto &o = *nlopt::opt::self;
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 1;
    u << 1;
    int k = 0;
    o.solve = [&](nlopt::opt &, const std::vector<double> &g) { if (k == 1) throw nlopt::roundoff_limited(); return g; };
    for (k = 0; k < 3; k++)
    {
        c.optimize(x, u);
        CHECK(c.getExecutionStats().numberOfSolutions == k + 1);
    }
    c.resetStats();
    CHECK(c.getExecutionStats().numberOfSolutions == 0);
    return bad;
}''', 'n')
seed('s31-command-after-second-failure', 'C19',
 'two failed set-ups in a row after a successful solve',
 'the command kept after a failure is read from the sequences, which the first failure cleared',
 [(I + 'LMPC/LOptimizer.hpp', 'r.cmd = result.cmd;', 'r.cmd = sequence.input.row(0);')],
 r'''
int main()
{
    LMPC<> c(1, 1, 1, 1, 2, 2);
    c.setLoggerLevel(Logger::log_level::NONE);
    cvec<Eigen::Dynamic> x(1), u(1);
    x << 1;
    u << 1;
    Qp::x.assign(2 * 3 + 2, 0.0);
    for (size_t i = 0; i < Qp::x.size(); i++)
        Qp::x[i] = 1.0 + i;
    double first = c.optimize(x, u).cmd(0);
    CHECK(first != 0);
    for (int k = 0; k < 3; k++)
    {
        Qp::fail = 1;
        auto r = c.optimize(x, u);
        CHECK(r.status == ResultStatus::ERROR && std::isinf(r.cost));
        CHECK(near(r.cmd(0), first));
    }
    return bad;
}''', 'q')
seed('s32-limit-not-lifted', 'C18',
 'a scalar limit replaced by an infinite one through the problem builder',
 'the first stage keeps the earlier scalar limit when the new one is infinite',
 [(I + 'LMPC/ProblemBuilder.hpp', 'sMax(0) = MaxMat(0);', 'sMax(0) = MaxMat(0) < inf ? MaxMat(0) : sMax(0);')],
 r'''
int main()
{
    typedef ProblemBuilder<MPCSize(-1, -1, -1, -1, -1, -1, 0, 0)> PB;
    const int ph = 2;
    PB b;
    b.initialize(1, 1, 1, 1, ph, 2);
    cvec<Eigen::Dynamic> lo(ph), hi(ph), X(1), U(1);
    mat<Eigen::Dynamic, Eigen::Dynamic> m(1, ph);
    m.setZero();
    lo << -1, -1;
    X << 1;
    U << 1;
    for (double top : {2.0, (double)std::numeric_limits<double>::infinity(), 3.0})
    {
        hi << top, top;
        b.setScalarConstraint(lo, hi, X, U);
        auto &p = b.get(X, U, m, m, m, m);
        for (int i = 0; i <= ph; i++)
            CHECK(near(p.u(p.u.size() - (ph + 1) + i), top));
    }
    return bad;
}''', 'q')
seed('s33-square-output-transposed', 'C21',
 'a model with as many outputs as states, at least three',
 'the discrete output matrix is transposed',
 [(I + 'Utils.hpp', 'Cd = C;', 'Cd = C;\n    if constexpr (ny == nx && nx > 2)\n    {\n        Cd.transposeInPlace();\n    }')],
 r'''
#include <mpc/Types.hpp>
#include <mpc/Utils.hpp>
using namespace mpc;
int main()
{
    mat<3, 3> A, C, Ad, Cd;
    mat<3, 1> B, Bd, D, Dd;
    for (int i = 0; i < 9; i++)
    {
        A(i / 3, i % 3) = 0.1 * i;
        C(i / 3, i % 3) = i;
    }
    B << 1, 2, 3;
    D << 4, 5, 6;
    discretization<3, 1, 3>(A, B, C, D, 0.1, Ad, Bd, Cd, Dd);
    CHECK(Cd == C);
    CHECK(Dd == D);
    return bad;
}''', '')
seed('s34-column-past-the-end', 'C26',
 'a linear controller without disturbance inputs',
 'the last output row reads the column after the last one of the (empty) disturbance measurements',
 [(I + 'LMPC/LOptimizer.hpp', 'builder->mapToOutput(sequence.state.row(i), extInputMeas.col(i - 1));', 'builder->mapToOutput(sequence.state.row(i), extInputMeas.col(ndu() > 0 ? i - 1 : i));')],
 r'''
int main()
{
    for (int ndu : {1, 0})
    {
        LMPC<> c(2, 1, ndu, 1, 3, 2);
        c.setLoggerLevel(Logger::log_level::NONE);
        cvec<Eigen::Dynamic> x(2), u(1);
        x << 1, 2;
        u << 1;
        Qp::x.assign(3 * 4 + 3, 1.0);
        auto r = c.optimize(x, u);
        CHECK(r.status == ResultStatus::SUCCESS);
        CHECK(c.getOptimalSequence().output.rows() == 4);
    }
    return bad;
}''', 'q')
