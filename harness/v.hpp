// Verification intrinsics.  The verifier interprets the declarations symbolically; with V_NATIVE they are
// the contract-checking driver (concrete inputs, logged inputs and outputs).
#pragma once
#include <string>
#include <vector>
#include <Eigen/Core>
#ifdef V_NATIVE
#include <fcntl.h>
#endif

namespace V
{
#ifndef V_NATIVE
int param(const std::string &name);
int dim(const std::string &name, int min);
int integer(const std::string &name, int lo, int hi); // lo <= v < hi
double real(const std::string &name);
double preal(const std::string &name);                // positive
bool boolean(const std::string &name);
Eigen::VectorXd vec(const std::string &name, int n);
Eigen::VectorXd pvec(const std::string &name, int n); // positive entries
Eigen::VectorXd fpvec(const std::string &name, int n); // positive entries below any infinity
Eigen::MatrixXd matrix(const std::string &name, int r, int c);
std::vector<double> stdvec(const std::string &name, int n);
std::string nm(const std::string &name, int k);
void assume(bool c);
void check(bool c, const std::string &what);          // precondition of the solver boundary
void event(const std::string &what);
void out(const std::string &name, double v);
void out(const std::string &name, int v);
void out(const std::string &name, bool v);
void out(const std::string &name, const std::string &v);
void out(const std::string &name, const Eigen::MatrixXd &m);
void out(const std::string &name, const std::vector<double> &m);
void outp(const std::string &name, const double *p, int n);
void outp(const std::string &name, const long long *p, int n);
template <class... A> double app(const std::string &name, const A &...args);
template <class O, class... A> void appv(const std::string &name, O &out, const A &...args);
// functions with a known derivative: quadratic in every real entry, arbitrary in the integer arguments
template <class... A> double qapp(const std::string &name, const A &...args);
template <class O, class... A> void qappv(const std::string &name, O &out, const A &...args);
#else
#include "v_native.hpp"
#endif
}
#ifdef V_NATIVE
void scenario();
int main(int argc, char **argv)
{
    return V::run(argc, argv, scenario);
}
#endif
