// Feeds polynomials in Bernstein form to the program's elements, boundaries and interfaces and prints what they make of them.
// stdin: "rules" | "case p s x0 y0 x1 y1 x2 y2  k ax ay rot  nf f..  ng g..  nw w.." ; coordinates are multiplied by s.
#include "general_definitions.hpp"
#include "geometry/mesh_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "problem/SWE/problem_function_files/swe_initial_condition_functions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <tuple>

using MasterType  = Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D>;
using ElementType = Geometry::Element<2, MasterType, Shape::StraightTriangle, SWE::Data>;
using RawType     = Geometry::RawBoundary<1, SWE::Data>;
using BoundType   = Geometry::Boundary<1, Integration::GaussLegendre_1D, SWE::Data, SWE::EHDG::BC::Land>;
using IntType     = Geometry::Interface<1, Integration::GaussLegendre_1D, SWE::Data, SWE::EHDG::ISP::Internal>;
using EBoundTypes = Geometry::EdgeBoundaryTypeTuple<SWE::EdgeData, Geometry::BoundaryTypeTuple<SWE::Data, SWE::EHDG::BC::Land>>::Type;
using EBoundType  = std::tuple_element<0, EBoundTypes>::type;
using EIntTypes   = Geometry::EdgeInterfaceTypeTuple<SWE::EdgeData, Geometry::InterfaceTypeTuple<SWE::Data, SWE::EHDG::ISP::Internal>>::Type;
using EIntType    = std::tuple_element<0, EIntTypes>::type;
using Mat = DynMatrix<double>;
using Vec = std::vector<double>;

static bool first;
static void put(const char* name, const Vec& v) {
    printf("%s\"%s\":[", first ? "" : ",", name);
    first = false;
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i] != v[i]) printf("%s\"nan\"", i ? "," : "");
        else if (std::isinf(v[i])) printf("%s\"inf\"", i ? "," : "");
        else printf("%s%.17g", i ? "," : "", v[i]);
    }
    printf("]");
}
static int deg(const Vec& c) {
    int n = 0;
    while ((n + 1) * (n + 2) / 2 < (int)c.size()) ++n;
    return n;
}
// de Casteljau
static double bern(Vec c, double l0, double l1, double l2) {
    for (int n = deg(c); n > 0; --n) {
        Vec d(n * (n + 1) / 2);
        int at = 0;
        for (int s = 0; s < n; ++s)
            for (int k = 0; k <= s; ++k, ++at)
                d[at] = l0 * c[s * (s + 1) / 2 + k] + l1 * c[(s + 1) * (s + 2) / 2 + k] + l2 * c[(s + 1) * (s + 2) / 2 + k + 1];
        c = d;
    }
    return c[0];
}
struct Tri {
    double x[3], y[3];
    void lam(const Point<2>& p, double* l) const {
        double A = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
        for (int i = 0; i < 3; ++i) {
            int j = (i + 1) % 3, k = (i + 2) % 3;
            l[i] = ((x[j] - p[0]) * (y[k] - p[1]) - (x[k] - p[0]) * (y[j] - p[1])) / A;
        }
    }
};
struct Fun {
    const Tri& t;
    Vec c;
    StatVector<double, 1> operator()(const Point<2>& p) const {
        double l[3];
        t.lam(p, l);
        StatVector<double, 1> r;
        r[0] = bern(c, l[0], l[1], l[2]);
        return r;
    }
};
static Mat cw(const Mat& a, const Mat& b) {
    Mat r(1, columns(a));
    for (size_t i = 0; i < columns(a); ++i) r(0, i) = a(0, i) * b(0, i);
    return r;
}
static Mat rev(const Mat& a) {
    Mat r(1, columns(a));
    for (size_t i = 0; i < columns(a); ++i) r(0, i) = a(0, columns(a) - 1 - i);
    return r;
}
template <typename T> static double one(const T& e) { DynVector<double> v = e; return v[0]; }
static double off(const Mat& a, const Mat& b) {
    double m = columns(a) == columns(b) ? 0 : 1e9;
    for (size_t i = 0; i < columns(a) && i < columns(b); ++i) {
        double d = std::abs(a(0, i) - b(0, i));
        m = (d != d) ? 1e9 : std::max(m, d);
    }
    return m;
}
static double off(const Mat& a, const DynVector<double>& r, size_t n) { (void)a; (void)n; return r[0]; }

static void rules() {
    for (unsigned p = 1; p <= 20; ++p) {
        Integration::Dunavant_2D in;
        auto r = in.GetRule(p);
        Vec v;
        int L = (p + 1) * (p + 2) / 2;
        for (int i = 0; i < L; ++i) {
            Vec c(L, 0.0);
            c[i] = 1;
            double s = 0;
            for (size_t g = 0; g < r.second.size(); ++g) {
                double z1 = r.second[g][0], z2 = r.second[g][1];
                s += r.first[g] * bern(c, -(z1 + z2) / 2, (1 + z1) / 2, (1 + z2) / 2);
            }
            v.push_back(s);
        }
        printf("{"), first = true;
        put("v", v);
        printf(",\"dim\":2,\"p\":%u,\"ngp\":%u,\"size\":%u}\n", p, (unsigned)in.GetNumGP(p), (unsigned)r.second.size());
    }
    for (unsigned p = 1; p <= 65; ++p) {
        Integration::GaussLegendre_1D in;
        auto r = in.GetRule(p);
        Vec v;
        for (unsigned i = 0; i <= p; ++i) {
            double s = 0;
            for (size_t g = 0; g < r.second.size(); ++g) {
                double z = (1 + r.second[g][0]) / 2, b = 1;
                for (unsigned j = 0; j < i; ++j) b *= z * (p - j) / (j + 1);
                for (unsigned j = i; j < p; ++j) b *= 1 - z;
                s += r.first[g] * b;
            }
            v.push_back(s);
        }
        printf("{"), first = true;
        put("v", v);
        printf(",\"dim\":1,\"p\":%u,\"ngp\":%u,\"size\":%u}\n", p, (unsigned)in.GetNumGP(p), (unsigned)r.second.size());
    }
    for (unsigned p = 1; p <= 10; ++p) {  // 1-D basis: Gram matrix times the inverse mass
        Integration::GaussLegendre_1D in;
        Basis::Legendre_1D b;
        auto r = in.GetRule(2 * p + 1);
        Mat phi = b.GetPhi(p, r.second), mi = b.GetMinv(p);
        Vec v;
        for (unsigned i = 0; i <= p; ++i)
            for (unsigned j = 0; j <= p; ++j) {
                double s = 0;
                for (size_t g = 0; g < r.second.size(); ++g) s += r.first[g] * phi(i, g) * phi(j, g);
                v.push_back(s * mi(j, j));
            }
        printf("{"), first = true;
        put("gram", v);
        Integration::Dunavant_2D i2;
        Basis::Dubiner_2D b2;
        auto r2 = i2.GetRule(2 * p);
        Mat ph2 = b2.GetPhi(p, r2.second), m2 = b2.GetMinv(p);
        unsigned n = (p + 1) * (p + 2) / 2;
        Vec w, od;
        for (unsigned i = 0; i < n; ++i)
            for (unsigned j = 0; j < n; ++j) {
                double s = 0;
                for (size_t g = 0; g < r2.second.size(); ++g) s += r2.first[g] * ph2(i, g) * ph2(j, g);
                w.push_back(s * m2(j, j));
                if (i != j) od.push_back(m2(i, j));
            }
        put("gram2", w);
        put("minvoff", od);
        printf(",\"p\":%u}\n", p);
    }
}

static void readpoly(std::istream& s, Vec& c) {
    int n;
    s >> n;
    c.resize((n + 1) * (n + 2) / 2);
    for (auto& x : c) s >> x;
}

static void one_case(std::istream& in) {
    unsigned p;
    int k, rot;
    double s, ax, ay;
    Tri T, U;
    in >> p >> s;
    for (int i = 0; i < 3; ++i) in >> T.x[i] >> T.y[i];
    in >> k >> ax >> ay >> rot;
    Vec f, g, w;
    readpoly(in, f), readpoly(in, g), readpoly(in, w);
    for (int i = 0; i < 3; ++i) T.x[i] *= s, T.y[i] *= s;
    // neighbour across edge k: nodes (k+2, k+1, apex), rotated
    double nx[3] = {T.x[(k + 2) % 3], T.x[(k + 1) % 3], ax * s}, ny[3] = {T.y[(k + 2) % 3], T.y[(k + 1) % 3], ay * s};
    unsigned nid[3] = {(unsigned)(k + 2) % 3, (unsigned)(k + 1) % 3, 3};
    std::vector<uint> uid(3);
    int k2 = 0;
    for (int i = 0; i < 3; ++i) {
        U.x[i] = nx[(i + rot) % 3], U.y[i] = ny[(i + rot) % 3], uid[i] = nid[(i + rot) % 3];
        if ((i + rot) % 3 == 2) k2 = i;
    }
    MasterType master(p);
    auto mk = [&](const Tri& t) {
        AlignedVector<Point<3>> v(3);
        for (int i = 0; i < 3; ++i) v[i] = {t.x[i], t.y[i], 0.};
        return v;
    };
    std::vector<uchar> land(3, SWE::BoundaryTypes::land);
    std::vector<uint> none(3, DEFAULT_ID);
    ElementType e(0, master, mk(T), std::vector<uint>{0, 1, 2}, std::vector<uint>(none), std::vector<uchar>(land));
    ElementType e2(1, master, mk(U), std::vector<uint>(uid), std::vector<uint>(none), std::vector<uchar>(land));

    Fun F{T, f}, G{T, g}, W{T, w}, GU{U, g};
    Mat uf = e.L2ProjectionF(F), ug = e.L2ProjectionF(G), ugU = e2.L2ProjectionF(GU);
    Mat wg = e.ComputeFgp(W), fg = e.ComputeFgp(F), gg = e.ComputeFgp(G);
    unsigned nd = (p + 1) * (p + 2) / 2;
    printf("{"), first = true;
    double I1;
    I1 = one(e.Integration(wg));
    put("int", {I1 / s / s});
    {  // pointwise reproduction
        Mat r = e.ComputeUgp(uf);
        put("repr", {off(r, fg)});
        Mat pj = e.L2Projection(fg);
        put("proj", {off(pj, uf)});
        Mat rhs = e.IntegrationPhi(fg);
        Mat am  = e.ApplyMinv(rhs);
        put("minv", {off(am, uf)});
        Vec hi;
        unsigned low = f.size();
        for (unsigned i = low; i < nd; ++i) hi.push_back(uf(0, i));
        put("high", hi);
    }
    {  // integrals against the basis
        Mat m = e.IntegrationPhi(wg);
        double a = 0, b = 0, c = 0, dd[2] = {0, 0}, dm[2] = {0, 0}, pd[2] = {0, 0};
        for (unsigned i = 0; i < nd; ++i) {
            double t = one(e.IntegrationPhi(i, wg));
            a += uf(0, i) * t, b += uf(0, i) * m(0, i);
            for (unsigned j = 0; j < nd; ++j) {
                double q = one(e.IntegrationPhiPhi(i, j, wg));
                c += uf(0, i) * ug(0, j) * q;
                for (unsigned d = 0; d < 2; ++d) {
                    double z = one(e.IntegrationPhiDPhi(i, d, j, wg));
                    pd[d] += uf(0, i) * ug(0, j) * z;
                }
            }
            for (unsigned d = 0; d < 2; ++d) {
                Mat md = e.IntegrationDPhi(d, wg);
                double z = one(e.IntegrationDPhi(d, i, wg));
                dd[d] += uf(0, i) * z, dm[d] += uf(0, i) * md(0, i);
            }
        }
        put("phi", {a / s / s, b / s / s});
        put("phiphi", {c / s / s});
        put("dphi", {dd[0] / s, dd[1] / s, dm[0] / s, dm[1] / s});
        put("phidphi", {pd[0] / s, pd[1] / s});
    }
    {  // derivative of the representation
        Vec v, pt;
        for (unsigned d = 0; d < 2; ++d) {
            Mat du = e.ComputeDUgp(d, uf);
            double z = one(e.Integration(cw(du, wg)));
            v.push_back(z / s);
        }
        put("du", v);
        AlignedVector<Point<2>> q(3);
        q[0] = {-1., -1.}, q[1] = {1., -1.}, q[2] = {-1., 1.};
        auto dphi = master.basis.GetDPhi(p, q);
        Tri R{{-1, 1, -1}, {-1, -1, 1}};
        for (unsigned d = 0; d < 2; ++d)
            for (int i = 0; i < 3; ++i) {
                double z = 0;
                for (unsigned j = 0; j < nd; ++j) z += uf(0, j) * dphi[d](j, i);
                pt.push_back(z);
            }
        put("dvert", pt);  // with respect to master coordinates
    }
    {  // values at points
        Vec v;
        AlignedVector<Point<2>> pts;
        int N = 3;
        for (int a = 0; a <= N; ++a)
            for (int b = 0; a + b <= N; ++b) {
                double l0 = a / 3.0, l1 = b / 3.0, l2 = (N - a - b) / 3.0;
                pts.push_back(Point<2>{l0 * T.x[0] + l1 * T.x[1] + l2 * T.x[2], l0 * T.y[0] + l1 * T.y[1] + l2 * T.y[2]});
            }
        // corners exactly, so that the singular point of the basis is hit
        auto lc = e.GetShape().GlobalToLocalCoordinates(pts);
        e.SetSurveyPoints(pts);
        AlignedVector<DynVector<double>> out;
        e.WriteSurveyPointData(uf, out);
        for (auto& x : out) v.push_back(x[0]);
        put("survey", v);
        AlignedVector<DynVector<double>> pd, cd;
        e.WritePointDataVTK(uf, pd);
        e.WriteCellDataVTK(uf, cd);
        AlignedVector<Point<3>> vp;
        Array2D<uint> cells;
        e.InitializeVTK(vp, cells);
        // every point and every cell carries the value of the polynomial where it lies
        double worst = pd.size() == vp.size() && cd.size() == cells.size() ? 0 : 1e9;
        for (size_t i = 0; i < pd.size() && i < vp.size(); ++i)
            worst = std::max(worst, std::abs(pd[i][0] - F(Point<2>{vp[i][0], vp[i][1]})[0]));
        for (size_t i = 0; i < cd.size() && i < cells.size(); ++i) {
            Point<2> m{0, 0};
            for (int j = 1; j < 4; ++j) m[0] += vp[cells[i][j]][0] / 3, m[1] += vp[cells[i][j]][1] / 3;
            worst = std::max(worst, std::abs(cd[i][0] - F(m)[0]));
        }
        double area = 0;
        for (auto& c : cells) {
            auto &a = vp[c[1]], &b = vp[c[2]], &d = vp[c[3]];
            area += ((b[0] - a[0]) * (d[1] - a[1]) - (d[0] - a[0]) * (b[1] - a[1]));
        }
        put("vtk", {worst});
        put("vtkarea", {area / s / s});
    }
    {  // linear and nodal forms
        Mat v = e.ProjectBasisToLinear(uf);
        put("lin", {v(0, 0), v(0, 1), v(0, 2)});
        Mat lin(1, 3);
        for (int i = 0; i < 3; ++i) lin(0, i) = w[w.size() >= 3 ? i : 0];  // corner values: the first coefficients of w
        Mat back = e.ProjectLinearToBasis(lin), nod = e.L2ProjectionNode(lin);
        put("linnode", {off(back, nod)});
        Mat again = e.ProjectBasisToLinear(back);
        put("linlin", {off(again, lin)});
        Mat lg = e.ComputeLinearUgp(lin), ng = e.ComputeNodalUgp(lin), bg = e.ComputeUgp(back);
        put("lingp", {off(lg, ng), off(lg, bg)});
        double a = one(e.Integration(cw(lg, fg)));
        put("linint", {a / s / s});
        Vec d;
        for (unsigned q = 0; q < 2; ++q) {
            Mat l = e.ComputeLinearDUgp(q, lin), n = e.ComputeNodalDUgp(q, lin);
            DynVector<double> b = e.ComputeLinearDUbaryctr(q, lin);
            for (size_t i = 0; i < columns(l); ++i) d.push_back(l(0, i) * s);
            for (size_t i = 0; i < columns(n); ++i) d.push_back(n(0, i) * s);
            d.push_back(b[0] * s);
            put(q ? "lindy" : "lindx", {d.front(), *std::max_element(d.begin(), d.end()), *std::min_element(d.begin(), d.end()), b[0] * s});
            d.clear();
        }
        double bc = one(e.ComputeLinearUbaryctr(lin));
        Mat mp = e.ComputeLinearUmidpts(lin), vt = e.ComputeLinearUvrtx(lin);
        put("lincentre", {bc});
        put("linmid", {mp(0, 0), mp(0, 1), mp(0, 2)});
        put("linvert", {vt(0, 0), vt(0, 1), vt(0, 2)});
    }
    put("l2", {e.ComputeResidualL2(G, uf) / s / s});
    {  // shape
        auto sh = e.GetShape();
        Point<2> b = sh.GetBarycentricCoordinates();
        put("area", {sh.GetArea() / s / s});
        put("centre", {b[0] / s, b[1] / s});
        Vec mids, len, cont;
        for (auto& m : sh.GetMidpointCoordinates()) mids.push_back(m[0] / s), mids.push_back(m[1] / s);
        for (double l : sh.GetLengths()) len.push_back(l * l / s / s);
        double R = sh.GetRadius() / s;
        put("mids", mids), put("len2", len), put("radius2", {R * R});
        for (int i = 0; i < 3; ++i) {
            Point<2> q{0.5 * b[0] + 0.5 * T.x[i], 0.5 * b[1] + 0.5 * T.y[i]}, o{2.5 * T.x[i] - 1.5 * b[0], 2.5 * T.y[i] - 1.5 * b[1]},
                z{2.5 * b[0] - 1.5 * T.x[i], 2.5 * b[1] - 1.5 * T.y[i]};
            cont.push_back(sh.ContainsPoint(q)), cont.push_back(sh.ContainsPoint(o)), cont.push_back(sh.ContainsPoint(z));
        }
        put("inside", cont);
    }
    // faces
    std::map<uchar, std::map<std::pair<uint, uint>, RawType>> ra, rb, rc;
    e.CreateRawBoundaries(ra);
    std::vector<BoundType> bs;
    bs.reserve(3);
    std::vector<unsigned> which;
    for (auto& m : ra)
        for (auto& r : m.second) which.push_back(r.second.bound_id), bs.emplace_back(std::move(r.second));
    std::vector<std::pair<std::string, Vec>> acc;
    auto add = [&](const char* n, double v, double nx, double ny) {
        for (auto& a : acc)
            if (a.first == n) { a.second.push_back(v * nx), a.second.push_back(v * ny); return; }
        acc.push_back({n, {v * nx, v * ny}});
    };
    Vec lo, res, nodes;
    for (int kk = 0; kk < 3; ++kk)
        for (size_t n = 0; n < bs.size(); ++n) {
            if ((int)which[n] != kk) continue;
            BoundType& b = bs[n];
            EBoundType eb(b);
            double nx = b.surface_normal(0, 0) / s, ny = b.surface_normal(1, 0) / s;
            Mat uu = b.ComputeUgp(uf), ww = b.ComputeFgp(W), ff = b.ComputeFgp(F), u2 = b.ComputeUgp(ug);
            double spread = off(uu, ff);
            for (size_t q = 0; q < columns(b.surface_normal); ++q)
                spread = std::max(spread, std::abs(b.surface_normal(0, q) / s - nx) + std::abs(b.surface_normal(1, q) / s - ny));
            add("b_int", one(b.Integration(cw(uu, ww))), nx, ny);
            Mat m = b.IntegrationPhi(ww);
            double a = 0, c = 0, pp = 0, pl = 0, ll = 0;
            for (unsigned i = 0; i < nd; ++i) {
                a += uf(0, i) * one(b.IntegrationPhi(i, ww)), c += uf(0, i) * m(0, i);
                for (unsigned j = 0; j < nd; ++j) pp += uf(0, i) * ug(0, j) * one(b.IntegrationPhiPhi(i, j, ww));
            }
            add("b_phi", a, nx, ny), add("b_phim", c, nx, ny), add("b_phiphi", pp, nx, ny);
            // trace basis
            Mat lam = eb.L2Projection(u2);
            Mat lg = eb.ComputeUgp(lam);
            spread = std::max(spread, off(lg, u2));
            Mat rhs(1, p + 1), lf = eb.L2Projection(uu);
            double l1 = 0;
            for (unsigned j = 0; j <= p; ++j) {
                rhs(0, j) = one(eb.IntegrationLambda(j, u2));
                l1 += lf(0, j) * one(eb.IntegrationLambda(j, ww));
                for (unsigned i = 0; i < nd; ++i) pl += uf(0, i) * lam(0, j) * one(eb.IntegrationPhiLambda(i, j, ww));
                for (unsigned i = 0; i <= p; ++i) ll += lf(0, i) * lam(0, j) * one(eb.IntegrationLambdaLambda(i, j, ww));
            }
            Mat mm = eb.ApplyMinv(rhs);
            spread = std::max(spread, off(mm, lam));
            add("b_lam", l1, nx, ny), add("b_philam", pl, nx, ny), add("b_lamlam", ll, nx, ny);
            Mat corner(1, 3), ends(1, 2);
            for (int i = 0; i < 3; ++i) corner(0, i) = w[w.size() >= 3 ? i : 0];
            ends(0, 0) = corner(0, (kk + 1) % 3), ends(0, 1) = corner(0, (kk + 2) % 3);
            Mat ng = b.ComputeNodalUgp(corner), eg = b.ComputeBoundaryNodalUgp(ends);
            spread = std::max(spread, off(ng, eg));
            add("b_nodal", one(b.Integration(cw(ng, uu))), nx, ny);
            res.push_back(spread);
            for (uint id : b.GetNodeID()) nodes.push_back(id);
        }
    for (auto& a : acc) put(a.first.c_str(), a.second);
    acc.clear();
    put("b_res", res);
    put("b_nodes", nodes);
    // the interface across face k
    e.CreateRawBoundaries(rb), e2.CreateRawBoundaries(rc);
    RawType *pa = nullptr, *pb = nullptr;
    for (auto& m : rb) for (auto& r : m.second) if ((int)r.second.bound_id == k) pa = &r.second;
    for (auto& m : rc) for (auto& r : m.second) if ((int)r.second.bound_id == k2) pb = &r.second;
    IntType I(std::move(*pa), std::move(*pb));
    EIntType E(I);
    {
        double nx = I.surface_normal_in(0, 0) / s, ny = I.surface_normal_in(1, 0) / s;
        size_t ng = columns(I.surface_normal_in);
        double spread = 0;
        for (size_t q = 0; q < ng; ++q)
            spread = std::max(spread, std::abs(I.surface_normal_in(0, q) + I.surface_normal_ex(0, ng - 1 - q)) +
                                          std::abs(I.surface_normal_in(1, q) + I.surface_normal_ex(1, ng - 1 - q)));
        Mat fi = I.ComputeUgpIN(uf), ge = I.ComputeUgpEX(ugU), wi = I.ComputeFgpIN(W), we = I.ComputeFgpEX(W);
        double wmax = 1;
        for (double x : w) wmax = std::max(wmax, std::abs(x));
        spread = std::max(spread, off(rev(wi), we) / wmax / 16);
        // everything below integrates f (inside) * g (outside) * w over the face, through each of the two sides
        Mat fe = rev(fi), gi = rev(ge);
        add("i_in", one(I.IntegrationIN(cw(cw(fi, gi), wi))), nx, ny);
        add("i_ex", one(I.IntegrationEX(cw(cw(fe, ge), we))), nx, ny);
        double a = 0, b = 0, c = 0, d = 0, x = 0, y = 0, z = 0, t = 0;
        Mat mi = I.IntegrationPhiIN(cw(gi, wi)), me = I.IntegrationPhiEX(cw(fe, we));
        Mat lf = E.L2Projection(fi), lg = E.L2Projection(gi);
        Mat lfg = E.ComputeUgp(lf);
        spread = std::max(spread, off(lfg, fi));
        for (unsigned i = 0; i < nd; ++i) {
            a += uf(0, i) * one(I.IntegrationPhiIN(i, cw(gi, wi))), b += ugU(0, i) * one(I.IntegrationPhiEX(i, cw(fe, we)));
            c += uf(0, i) * mi(0, i), d += ugU(0, i) * me(0, i);
            for (unsigned j = 0; j <= p; ++j) {
                x += uf(0, i) * lg(0, j) * one(E.IntegrationPhiLambdaIN(i, j, wi));
                y += ugU(0, i) * lf(0, j) * one(E.IntegrationPhiLambdaEX(i, j, we));
            }
        }
        for (unsigned i = 0; i <= p; ++i) {
            t += lf(0, i) * one(E.IntegrationLambda(i, cw(gi, wi)));
            for (unsigned j = 0; j <= p; ++j) z += lf(0, i) * lg(0, j) * one(E.IntegrationLambdaLambda(i, j, wi));
        }
        double v[8] = {a, b, c, d, x, y, z, t};
        for (double q : v) add("i_phi", q, nx, ny);
        // u*u on each side alone
        double pi = 0, pe = 0;
        for (unsigned i = 0; i < nd; ++i)
            for (unsigned j = 0; j < nd; ++j) {
                pi += uf(0, i) * uf(0, j) * one(I.IntegrationPhiPhiIN(i, j, wi));
                pe += ugU(0, i) * ugU(0, j) * one(I.IntegrationPhiPhiEX(i, j, we));
            }
        add("i_ppin", pi, nx, ny), add("i_ppex", pe, nx, ny);
        Mat corner(1, 3), cornerU(1, 3), ends(1, 2), endsU(1, 2);
        for (int i = 0; i < 3; ++i) corner(0, i) = w[w.size() >= 3 ? i : 0];
        for (int i = 0; i < 3; ++i) cornerU(0, i) = uid[i] < 3 ? corner(0, uid[i]) : 7.0;
        ends(0, 0) = corner(0, (k + 1) % 3), ends(0, 1) = corner(0, (k + 2) % 3);
        endsU(0, 0) = ends(0, 1), endsU(0, 1) = ends(0, 0);
        Mat n1 = I.ComputeNodalUgpIN(corner), n2 = I.ComputeNodalUgpEX(cornerU), n3 = I.ComputeBoundaryNodalUgpIN(ends),
            n4 = I.ComputeBoundaryNodalUgpEX(endsU);
        spread = std::max({spread, off(n1, rev(n2)), off(n1, n3), off(n2, n4)});
        Vec ids;
        for (uint id : I.GetNodeIDIN()) ids.push_back(id);
        for (uint id : I.GetNodeIDEX()) ids.push_back(id);
        for (auto& q : acc) put(q.first.c_str(), q.second);
        put("i_res", {spread}), put("i_nodes", ids);
    }
    printf("}\n");
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        std::string what;
        s >> what;
        if (what == "rules") rules();
        if (what == "case") one_case(s);
    }
    return 0;
}
