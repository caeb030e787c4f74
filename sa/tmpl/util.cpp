#include <opm/core/utility/SparseVector.hpp>
#include <opm/core/utility/SparseTable.hpp>
#include <opm/core/utility/Average.hpp>
#include <opm/core/utility/RootFinders.hpp>
#include <opm/core/utility/Units.hpp>
#include <opm/core/utility/linearInterpolation.hpp>
#include <opm/core/utility/NonuniformTableLinear.hpp>
#include <opm/core/utility/UniformTableLinear.hpp>
#include <opm/core/utility/buildUniformMonotoneTable.hpp>
#include <vector>
namespace Opm {
template class SparseVector<double>;
template class SparseTable<double>;
template class NonuniformTableLinear<double>;
template class UniformTableLinear<double>;
namespace vinst {
struct F { double a; virtual double operator()(double x) const; };
double va(double a, double b) { return utils::arithmeticAverage<double, double>(a, b); }
double vg(double a, double b) { return utils::geometricAverage(a, b); }
double vh(double a, double b) { return utils::harmonicAverage(a, b); }
double rf1(const F& f, double a, double b, int m, double tol, int& it) { return RegulaFalsi<ThrowOnError>::solve(f, a, b, m, tol, it); }
double rf2(const F& f, double a, double b, int m, double tol, int& it) { return RegulaFalsi<ContinueOnError>::solve(f, a, b, m, tol, it); }
double rf3(const F& f, double x, double a, double b, int m, double tol, int& it) { return RegulaFalsi<ThrowOnError>::solve(f, x, a, b, m, tol, it); }
double rf4(const F& f, double x, double a, double b, int m, double tol, int& it) { return RegulaFalsi<ContinueOnError>::solve(f, x, a, b, m, tol, it); }
void bz(const F& f, double x0, double dx, double& a, double& b) { bracketZero(f, x0, dx, a, b); }
SparseVector<double> sv(int n, const std::vector<double>& d, const std::vector<int>& i) { return SparseVector<double>(n, d.begin(), d.end(), i.begin(), i.end()); }
SparseTable<double> st(const std::vector<double>& d, const std::vector<int>& i) { return SparseTable<double>(d.begin(), d.end(), i.begin(), i.end()); }
void sta(SparseTable<double>& t, const std::vector<double>& d) { t.appendRow(d.begin(), d.end()); }
void sts(SparseTable<double>& t, const std::vector<double>& d, const std::vector<int>& i) { t.assign(d.begin(), d.end(), i.begin(), i.end()); }
void stl(SparseTable<double>& t, const std::vector<int>& i) { t.allocate(i.begin(), i.end()); }
}
}
