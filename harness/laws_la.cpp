// Linear-algebra wrappers and typed containers the solvers are built on, against plain-loop definitions and models.
#include "general_definitions.hpp"
#include "utilities/heterogeneous_containers.hpp"
#include "utilities/almost_equal.hpp"
#include "utilities/sign.hpp"
#include "pbt.hpp"

namespace {
using VV = std::vector<std::vector<double>>;
inline double val(pbt::T& t) {
    return t.chance(10) ? 0.0 : t.s(1) * t.lg(1e-3, 1e3);
}
inline DynMatrix<double> mat(pbt::T& t, uint m, uint n, VV& v) {
    DynMatrix<double> A(m, n);
    v.assign(m, std::vector<double>(n));
    for (uint i = 0; i < m; ++i)
        for (uint j = 0; j < n; ++j)
            A(i, j) = v[i][j] = val(t);
    return A;
}
inline DynVector<double> vec(pbt::T& t, uint n) {
    DynVector<double> x(n);
    for (uint i = 0; i < n; ++i)
        x[i] = val(t);
    return x;
}
// the order in which a matrix is laid out in a vector
template <int M, int N, int SO>
inline void stat_shape(pbt::T& t) {
    StatMatrix<double, M, N> A;
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            A(i, j) = val(t);
    StatVector<double, M * N> f = flatten<double, M, N, SO>(A);
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j)
            PCHECK(f[SO == SO::RowMajor ? i * N + j : j * M + i] == A(i, j), "flattened entry " << i << "," << j << " of " << M << "x" << N);
    StatMatrix<double, M, N> B = reshape<double, M, N, SO>(f);
    PCHECK(A == B, "reshaping a flattened matrix");
    StatVector<double, M * N> v;
    for (int i = 0; i < M * N; ++i)
        v[i] = i + 1;
    reshape<double, M, N, SO>(v) = A;  // a view: writes through
    PCHECK(v == f, "writing through a reshaped vector");
}
template <int M, int SO>
inline void hyb_shape(pbt::T& t, uint n) {
    HybMatrix<double, M> A(M, n);
    for (int i = 0; i < M; ++i)
        for (uint j = 0; j < n; ++j)
            A(i, j) = val(t);
    DynVector<double> f = flatten<double, M, SO>(A);
    PCHECK(f.size() == M * (int)n, "flattened size");
    for (int i = 0; i < M; ++i)
        for (uint j = 0; j < n; ++j)
            PCHECK(f[SO == SO::RowMajor ? i * n + j : j * M + i] == A(i, j), "flattened entry " << i << "," << j << " of " << M << "x" << n);
    HybMatrix<double, M> B = reshape<double, M, SO>(f, n);
    PCHECK(A == B, "reshaping a flattened matrix");
    DynMatrix<double> D = A;
    DynVector<double> g = flatten<double, SO>(D);
    PCHECK(f == g, "flattening a dynamic matrix");
    DynMatrix<double> E = reshape<double, SO>(g, M, n);
    PCHECK(E == D, "reshaping to a dynamic matrix");
    std::vector<double> mem(M * n + 2, -7.5);
    flatten<double, SO>(D, mem.data() + 1);
    for (uint k = 0; k < M * n; ++k)
        PCHECK(mem[k + 1] == f[k], "flattening into memory");
    PCHECK(mem[0] == -7.5 && mem[M * n + 1] == -7.5, "flattening writes outside its memory");
    DynVector<double> back = vector_from_array(mem.data() + 1, M * n);
    PCHECK(back == f, "vector from memory");
}
}

#if SEL(27)
LAW(P27, flatten_reshape, "a matrix with at least two rows and columns", 30000, 600000) {
    stat_shape<2, 2, SO::RowMajor>(t);
    stat_shape<3, 3, SO::RowMajor>(t);
    stat_shape<2, 2, SO::ColumnMajor>(t);
    stat_shape<2, 4, SO::ColumnMajor>(t);
    stat_shape<3, 2, SO::RowMajor>(t);
    uint n = t.i(1, 12);
    hyb_shape<2, SO::RowMajor>(t, n);
    hyb_shape<3, SO::RowMajor>(t, n);
    hyb_shape<3, SO::ColumnMajor>(t, n);
    hyb_shape<9, SO::RowMajor>(t, n);
    if (n > 1)
        t.nontrivial();
}
#endif

#if SEL(27)
LAW(P27, views, "a view that is smaller than the matrix", 30000, 600000) {
    uint m = t.i(1, 9), n = t.i(1, 9);
    VV v;
    auto A = mat(t, m, n, v);
    PCHECK(rows(A) == m && columns(A) == n, "dimensions");
    uint r0 = t.i(0, m - 1), c0 = t.i(0, n - 1), sr = t.i(1, m - r0), sc = t.i(1, n - c0);
    uint rr = t.i(0, m - 1), cc = t.i(0, n - 1);
    DynMatrix<double> S = submatrix(A, r0, c0, sr, sc);
    PCHECK(rows(S) == sr && columns(S) == sc, "dimensions of the submatrix");
    for (uint i = 0; i < sr; ++i)
        for (uint j = 0; j < sc; ++j)
            PCHECK(S(i, j) == v[r0 + i][c0 + j], "submatrix");
    DynRowVector<double> R = row(A, rr);
    DynVector<double> C    = column(A, cc);
    for (uint j = 0; j < n; ++j)
        PCHECK(R[j] == v[rr][j], "row");
    for (uint i = 0; i < m; ++i)
        PCHECK(C[i] == v[i][cc], "column");
    DynMatrix<double> Tr = transpose(A);
    PCHECK(rows(Tr) == n && columns(Tr) == m, "dimensions of the transpose");
    for (uint i = 0; i < m; ++i)
        for (uint j = 0; j < n; ++j)
            PCHECK(Tr(j, i) == v[i][j], "transpose");
    // views write through, and only there
    double a = val(t), b = val(t), c = val(t);
    set_constant(submatrix(A, r0, c0, sr, sc), a);
    for (uint i = r0; i < r0 + sr; ++i)
        for (uint j = c0; j < c0 + sc; ++j)
            v[i][j] = a;
    set_constant(row(A, rr), b);
    for (uint j = 0; j < n; ++j)
        v[rr][j] = b;
    column(A, cc) *= c;
    for (uint i = 0; i < m; ++i)
        v[i][cc] *= c;
    for (uint i = 0; i < m; ++i)
        for (uint j = 0; j < n; ++j)
            PCHECK(A(i, j) == v[i][j], "after writing through views, entry " << i << "," << j);
    uint s = t.i(1, 12), f = t.i(0, s - 1), l = t.i(1, s - f);
    auto x = vec(t, s), y = x;
    DynVector<double> sub = subvector(x, f, l);
    PCHECK(size(sub) == l, "size of the subvector");
    for (uint i = 0; i < l; ++i)
        PCHECK(sub[i] == y[f + i], "subvector");
    subvector(x, f, l) += sub;
    for (uint i = 0; i < s; ++i)
        PCHECK(x[i] == (i >= f && i < f + l ? 2 * y[i] : y[i]), "writing through a subvector");
    set_constant(A, a);
    for (uint i = 0; i < m; ++i)
        for (uint j = 0; j < n; ++j)
            PCHECK(A(i, j) == a, "set_constant");
    if (sr * sc < m * n)
        t.nontrivial();
}
#endif

#if SEL(27)
LAW(P27, arithmetic, "at least two entries", 30000, 600000) {
    uint n = t.i(1, 12);
    auto x = vec(t, n), y = vec(t, n);
    for (uint i = 0; i < n; ++i)
        if (y[i] == 0)
            y[i] = 1;
    long double sq = 0;
    for (uint i = 0; i < n; ++i)
        sq += (long double)x[i] * x[i];
    PNEAR(sq_norm(x), (double)sq, 1e-13 * (double)sq, "squared norm");
    PNEAR(norm(x), (double)std::sqrt(sq), 1e-13 * (double)std::sqrt(sq), "norm");
    DynVector<double> p = vec_cw_mult(x, y), q = vec_cw_div(x, y);
    double e = t.pick({2.0, 3.0, 0.5, -1.0, 4.0 / 3.0});
    DynVector<double> ax = x.cwiseAbs();
    for (uint i = 0; i < n; ++i)
        ax[i] += 1e-3;
    DynVector<double> w = power(ax, e);
    for (uint i = 0; i < n; ++i) {
        PCHECK(p[i] == x[i] * y[i], "component-wise product");
        PCHECK(q[i] == x[i] / y[i], "component-wise quotient");
        double want = std::pow(ax[i], e);
        PNEAR(w[i], want, 1e-13 * want, "power");
    }
    DynMatrix<double> I = IdentityMatrix<double>(n);
    DynVector<double> Iv = IdentityVector<double>(n);
    PCHECK(rows(I) == n && columns(I) == n && size(Iv) == n * n, "size of the identity");
    for (uint i = 0; i < n; ++i)
        for (uint j = 0; j < n; ++j)
            PCHECK(I(i, j) == (i == j) && Iv[i * n + j] == (i == j), "identity");
    // determinant by Leibniz' formula, inverse by its product
    uint k = t.i(1, 4);
    VV v;
    auto A = mat(t, k, k, v);
    std::vector<uint> pi(k);
    for (uint i = 0; i < k; ++i)
        pi[i] = i;
    long double det = 0, mag = 0;
    do {
        long double f = 1;
        for (uint i = 0; i < k; ++i) {
            f *= v[i][pi[i]];
            for (uint j = 0; j < i; ++j)
                if (pi[j] > pi[i])
                    f = -f;
        }
        det += f;
        mag += std::abs(f);
    } while (std::next_permutation(pi.begin(), pi.end()));
    // rounding of an elimination is relative to the size of the matrix, not to that of the terms of the sum
    double size = 1;
    for (uint i = 0; i < k; ++i)
        size *= A.cwiseAbs().maxCoeff();
    PNEAR(determinant(A), (double)det, 1e-12 * size, "determinant of a " << k << "x" << k << " matrix");
    if (std::abs(det) > 1e-3 * size && size > 0) {
        DynMatrix<double> B = inverse(A), P = A * B;
        double sc = A.cwiseAbs().maxCoeff() * B.cwiseAbs().maxCoeff();
        for (uint i = 0; i < k; ++i)
            for (uint j = 0; j < k; ++j)
                PNEAR(P(i, j), double(i == j), 1e-12 * sc + 1e-12, "inverse");
    }
    double a = val(t), b = val(t);
    PCHECK(Utilities::sign(a) == (a > 0) - (a < 0), "sign of " << a);
    PCHECK(Utilities::almost_equal(a, a) && Utilities::almost_equal(a, b) == Utilities::almost_equal(b, a), "almost_equal is an equality");
    PCHECK(Utilities::almost_equal(a, a * (1 + 1e-15)), "almost_equal at rounding level");
    double d = t.lg(1e-12, 1);
    PCHECK(a == 0 || !Utilities::almost_equal(a, a * (1 + d)), "almost_equal tells " << a << " from " << a * (1 + d));
    if (n > 1)
        t.nontrivial();
}
#endif

#if SEL(27)
LAW(P27, dense_and_sparse_solve, "a system of at least two unknowns with repeated or missing entries", 20000, 300000) {
    uint n = t.i(1, 24), k = t.i(0, 4), nr = t.i(1, 3);
    // well conditioned: diagonally dominant by rows, then rows permuted and scaled
    auto pr = t.perm(n);
    DynMatrix<double> A = DynMatrix<double>::Zero(n, n);
    SparseMatrixMeta<double> meta;
    bool rep = false;
    for (uint i = 0; i < n; ++i) {
        double sc = t.lg(1e-2, 1e2);
        double dom = 0;
        uint r = pr[i];
        for (uint q = 0; q < k; ++q) {
            uint j = t.i(0, n - 1);
            double v = t.s(1);
            if (j == i)
                continue;
            int parts = t.i(1, 3);
            rep |= parts > 1;
            for (int z = 0; z < parts; ++z) {
                double w = z + 1 < parts ? t.s(1) : v;
                if (z + 1 < parts)
                    v -= w;
                A(r, j) += w * sc;
                meta.add_triplet(r, j, w * sc);
            }
            dom += 1;
        }
        double d = (dom + 1) * (t.b() ? 1 : -1);
        if (t.b()) {
            meta.add_triplet(r, i, d * sc);
        } else {
            meta.add_triplet(r, i, 0.25 * d * sc);
            meta.add_triplet(r, i, 0.75 * d * sc);
            rep = true;
        }
        A(r, i) += d * sc;
    }
    {  // the order of assembly does not matter
        auto p = t.perm(meta.data.size());
        auto old = meta.data;
        for (uint i = 0; i < p.size(); ++i)
            meta.data[i] = old[p[i]];
    }
    SparseMatrix<double> S(n, n);
    if (t.b())
        S.insert(t.i(0, n - 1), t.i(0, n - 1)) = 5;  // left over from an earlier assembly
    meta.get_sparse_matrix(S);
    DynMatrix<double> SD = S;
    for (uint i = 0; i < n; ++i)
        for (uint j = 0; j < n; ++j)
            PNEAR(SD(i, j), A(i, j), 1e-13 * (std::abs(A(i, j)) + A.row(i).cwiseAbs().maxCoeff()), "assembled entry " << i << "," << j);
    DynMatrix<double> X(n, nr);
    for (uint i = 0; i < n; ++i)
        for (uint j = 0; j < nr; ++j)
            X(i, j) = val(t);
    DynMatrix<double> B = A * X, B1 = B;
    DynMatrix<double> A1 = A;
    solve_sle(A1, B1);
    double xs = X.cwiseAbs().maxCoeff() + 1e-300;
    for (uint i = 0; i < n; ++i)
        for (uint j = 0; j < nr; ++j)
            PNEAR(B1(i, j) / xs, X(i, j) / xs, 1e-9, "dense solution");
    DynVector<double> b = B.col(0), x = X.col(0);
    DynVector<double> bd = b;
    A1 = A;
    solve_sle(A1, bd);
    solve_sle(S, b);
    for (uint i = 0; i < n; ++i) {
        PNEAR(bd[i] / xs, x[i] / xs, 1e-9, "dense solution for one right side");
        PNEAR(b[i] / xs, x[i] / xs, 1e-9, "sparse solution");
    }
    if (n > 1 && (rep || k < n - 1))
        t.nontrivial();
}
#endif

// Where the matrix is singular but the equations are consistent, dense and sparse solves give a finite solution of them.
#if SEL(27)
LAW(P27, consistent_singular, "a rank defect", 6000, 100000) {
    uint n = t.i(2, 12), r = t.i(1, n - 1);
    // A = sum of r rank-one terms with small integers: exactly singular
    DynMatrix<double> A = DynMatrix<double>::Zero(n, n);
    auto pr = t.perm(n), pc = t.perm(n);
    for (uint k = 0; k < r; ++k)
        A(pr[k], pc[k]) = t.i(1, 4);
    // rows that repeat others
    for (uint k = r; k < n; ++k)
        if (t.b())
            A.row(pr[k]) = A.row(pr[t.i(0, r - 1)]);
    DynVector<double> x(n);
    for (uint i = 0; i < n; ++i)
        x[i] = t.i(-4, 4);
    DynVector<double> b = A * x, want = b, bs = b;
    SparseMatrixMeta<double> meta;
    for (uint i = 0; i < n; ++i)
        for (uint j = 0; j < n; ++j)
            if (A(i, j) != 0)
                meta.add_triplet(i, j, A(i, j));
    SparseMatrix<double> S(n, n);
    meta.get_sparse_matrix(S);
    DynMatrix<double> A1 = A;
    solve_sle(A1, b);
    solve_sle(S, bs);
    DynVector<double> r1 = A * b - want, r2 = A * bs - want;
    for (uint i = 0; i < n; ++i) {
        PCHECK(std::isfinite(b[i]) && std::isfinite(bs[i]), "solution of a consistent singular system is not finite");
        PNEAR(r1[i], 0.0, 1e-9 * (1 + want.cwiseAbs().maxCoeff()), "residual of the dense solution");
        PNEAR(r2[i], 0.0, 1e-9 * (1 + want.cwiseAbs().maxCoeff()), "residual of the sparse solution");
    }
    t.nontrivial();
}
#endif

namespace {
struct A1 {
    int v;
    A1(int a) : v(a) {}
};
struct A2 {
    std::string s;
    double d;
    A2(const std::string& a, double b) : s(a), d(b) {}
};
using A3 = StatVector<double, 2>;
}
#if SEL(27)
LAW(P27, typed_containers, "at least two types and three entries", 20000, 300000) {
    Utilities::HeterogeneousVector<A1, A2, A3> V;
    Utilities::HeterogeneousMap<A1, A2, A3> M;
    std::vector<int> v1;
    std::vector<std::pair<std::string, double>> v2;
    std::vector<std::array<double, 2>> v3;
    std::map<uint, int> m1;
    std::map<uint, std::pair<std::string, double>> m2;
    std::map<uint, std::array<double, 2>> m3;
    int n = t.i(0, 20);
    for (int k = 0; k < n; ++k) {
        int a = t.i(-5, 5);
        double d = t.s(3);
        uint key = t.i(0, 8);
        switch (t.i(0, 5)) {
            case 0: V.emplace_back<A1>(a); v1.push_back(a); break;
            case 1: V.emplace_back<A2>(std::to_string(a), d); v2.push_back({std::to_string(a), d}); break;
            case 2: V.emplace_back<A3>(A3{d, (double)a}); v3.push_back({d, (double)a}); break;
            case 3: M.emplace(key, A1(a)); m1.emplace(key, a); break;
            case 4: M.emplace(key, A2(std::to_string(a), d)); m2.emplace(key, std::make_pair(std::to_string(a), d)); break;
            case 5: M.emplace(key, A3{d, (double)a}); m3.emplace(key, std::array<double, 2>{{d, (double)a}}); break;
        }
        PCHECK(V.size() == v1.size() + v2.size() + v3.size(), "size of the vector");
        PCHECK(M.size() == m1.size() + m2.size() + m3.size(), "size of the map");
    }
    const auto& CV = V;
    const auto& CM = M;
    for (uint k = 0; k < v1.size(); ++k)
        PCHECK(V.at<A1>(k).v == v1[k] && CV.at<A1>(k).v == v1[k], "entry " << k);
    for (uint k = 0; k < v2.size(); ++k)
        PCHECK(V.at<A2>(k).s == v2[k].first && CV.at<A2>(k).d == v2[k].second, "entry " << k);
    for (uint k = 0; k < v3.size(); ++k)
        PCHECK(V.at<A3>(k)[0] == v3[k][0] && CV.at<A3>(k)[1] == v3[k][1], "entry " << k);
    for (uint k = 0; k < 9; ++k) {
        auto has = [&](auto f) {
            try {
                f();
                return true;
            } catch (const std::out_of_range&) { return false; }
        };
        PCHECK(has([&] { M.at<A1>(k); }) == (m1.count(k) > 0) && has([&] { CM.at<A2>(k); }) == (m2.count(k) > 0) && has([&] { M.at<A3>(k); }) == (m3.count(k) > 0), "presence of key " << k);
        if (m1.count(k))
            PCHECK(M.at<A1>(k).v == m1[k], "key " << k);
        if (m2.count(k))
            PCHECK(CM.at<A2>(k).s == m2[k].first && M.at<A2>(k).d == m2[k].second, "key " << k);
        if (m3.count(k))
            PCHECK(M.at<A3>(k)[0] == m3[k][0] && CM.at<A3>(k)[1] == m3[k][1], "key " << k);
    }
    // iteration over all entries meets each once, type by type
    int c = 0;
    Utilities::for_each_in_tuple(V.data, [&](auto& vec) {
        for (auto& e : vec) {
            (void)e;
            ++c;
        }
    });
    PCHECK(c == (int)V.size(), "iteration");
    bool thrown = false;
    try {
        V.at<A1>(v1.size());
    } catch (const std::out_of_range&) { thrown = true; }
    PCHECK(thrown, "out of range access");
    if ((v1.size() > 0) + (v2.size() > 0) + (v3.size() > 0) > 1 && n > 2)
        t.nontrivial();
}
#endif
