// Independent reference computations used as oracles (no code of the repository).
#ifndef VERIF_ORACLE_HPP
#define VERIF_ORACLE_HPP
#include <cmath>
#include <map>
#include <utility>
#include <vector>

namespace oracle {
// n-point Gauss-Legendre rule by Newton iteration (exact to degree 2n-1)
inline const std::pair<std::vector<long double>, std::vector<long double>>& gauss(unsigned n) {
    static std::map<unsigned, std::pair<std::vector<long double>, std::vector<long double>>> cache;
    auto it = cache.find(n);
    if (it != cache.end())
        return it->second;
    std::vector<long double> w(n), x(n);
    for (unsigned k = 0; k < n; ++k) {
        long double z = std::cos(M_PI * (n - 1 - k + 0.75L) / (n + 0.5L)), pp = 1;
        for (int iter = 0; iter < 100; ++iter) {
            long double p0 = 1, p1 = z;
            for (unsigned j = 1; j < n; ++j) {
                long double p2 = ((2 * j + 1) * z * p1 - j * p0) / (j + 1);
                p0 = p1;
                p1 = p2;
            }
            pp = n * (z * p1 - p0) / (z * z - 1);
            long double dz = p1 / pp;
            z -= dz;
            if (std::abs(dz) < 1e-19L)
                break;
        }
        x[k] = z;
        w[k] = 2 / ((1 - z * z) * pp * pp);
    }
    return cache[n] = std::make_pair(w, x);
}
// reference triangle (-1,-1),(1,-1),(-1,1), exact for total degree deg (collapsed tensor rule)
template <typename F>
long double integrate_triangle(F f, unsigned deg) {
    auto& G = gauss(deg / 2 + 2);
    long double s = 0;
    for (unsigned i = 0; i < G.first.size(); ++i)
        for (unsigned j = 0; j < G.first.size(); ++j) {
            long double a = G.second[i], b = G.second[j];
            long double x = (1 + a) * (1 - b) / 2 - 1, y = b;
            s += G.first[i] * G.first[j] * (1 - b) / 2 * f(x, y);
        }
    return s;
}
template <typename PV>
void triangle_rule(unsigned deg, PV& pts, std::vector<double>& w) {
    auto& G = gauss(deg / 2 + 2);
    pts.clear();
    w.clear();
    for (unsigned i = 0; i < G.first.size(); ++i)
        for (unsigned j = 0; j < G.first.size(); ++j) {
            long double a = G.second[i], b = G.second[j];
            typename PV::value_type p;
            p[0] = (double)((1 + a) * (1 - b) / 2 - 1);
            p[1] = (double)b;
            pts.push_back(p);
            w.push_back((double)(G.first[i] * G.first[j] * (1 - b) / 2));
        }
}
// barycentric interpolation through (s,v)
inline std::vector<double> bary_w(const std::vector<double>& s) {
    std::vector<double> w(s.size(), 1.0);
    for (size_t i = 0; i < s.size(); ++i)
        for (size_t j = 0; j < s.size(); ++j)
            if (i != j)
                w[i] /= (s[i] - s[j]);
    return w;
}
inline std::vector<double> poly_derivative(const std::vector<double>& s, const std::vector<double>& v) {
    auto w = bary_w(s);
    std::vector<double> d(s.size(), 0.0);
    for (size_t i = 0; i < s.size(); ++i) {
        for (size_t j = 0; j < s.size(); ++j)
            if (i != j)
                d[i] += (w[j] / w[i]) / (s[i] - s[j]) * (v[j] - v[i]);
    }
    return d;
}
inline double poly_eval(const std::vector<double>& s, const std::vector<double>& v, double x) {
    auto w = bary_w(s);
    double a = 0, b = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        if (x == s[i])
            return v[i];
        a += w[i] / (x - s[i]) * v[i];
        b += w[i] / (x - s[i]);
    }
    return a / b;
}
}
#endif
