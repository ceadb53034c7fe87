// Solids along lines (G03).
// SRC: projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Polynomial) projects/serialization/ projects/utilities/private/(Errors|StringManip) projects/geometry/private/
#include "vdrv.h"
#include <memory>
#include <algorithm>
#include <cereal/types/memory.hpp>
#include <cereal/types/polymorphic.hpp>
#include "SIREN/geometry/Geometry.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/Cylinder.h"
#include "SIREN/geometry/Cone.h"
#include "SIREN/geometry/CutTube.h"
#include "SIREN/geometry/Ellipsoid.h"
#include "SIREN/geometry/EllipticalTube.h"
#include "SIREN/geometry/Para.h"
#include "SIREN/geometry/Trd.h"
#include "SIREN/geometry/Trap.h"
#include "SIREN/geometry/Torus.h"
#include "SIREN/geometry/Polycone.h"
#include "SIREN/geometry/Polyhedra.h"
#include "SIREN/geometry/GenericPolycone.h"
#include "SIREN/geometry/ExtrPoly.h"
#include "SIREN/geometry/GeometryMesh.h"
#include "SIREN/geometry/BooleanGeometry.h"
using namespace vd; using namespace siren::math; using namespace siren::geometry;
static const double U = 0.5;   // length of a tick
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static std::vector<double> L(JV const & v, char const * k) { std::vector<double> r; for(auto const & x : ga(v, k).GetArray()) r.push_back(x.GetDouble() * U); return r; }
static double eighth(int n) { return n * (M_PI / 4); }
static Quaternion quat(JV const & v) {
    double w = v[0].GetDouble(), x = v[1].GetDouble(), y = v[2].GetDouble(), z = v[3].GetDouble(), n = std::sqrt(w*w + x*x + y*y + z*z);
    return Quaternion(x / n, y / n, z / n, w / n);
}
// own rigid motion: the placement in the code is compared with this
struct Rigid {
    double R[3][3]; Vector3D T;
    Rigid(JV const & q, JV const & t) {
        double w = q[0].GetDouble(), x = q[1].GetDouble(), y = q[2].GetDouble(), z = q[3].GetDouble(), n = w*w + x*x + y*y + z*z;
        double M[3][3] = {{w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)}, {2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)}, {2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z}};
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) R[i][j] = M[i][j] / n;
        T = Vector3D(t[0].GetDouble() * U, t[1].GetDouble() * U, t[2].GetDouble() * U);
    }
    Vector3D dir(Vector3D const & d) const { return Vector3D(R[0][0]*d.GetX()+R[0][1]*d.GetY()+R[0][2]*d.GetZ(), R[1][0]*d.GetX()+R[1][1]*d.GetY()+R[1][2]*d.GetZ(), R[2][0]*d.GetX()+R[2][1]*d.GetY()+R[2][2]*d.GetZ()); }
    Vector3D pos(Vector3D const & p) const { return dir(p) + T; }
};
typedef std::array<Vector3D, 3> Tri;
static void quad(std::vector<Tri> & t, Vector3D a, Vector3D b, Vector3D c, Vector3D d) { t.push_back({a, b, c}); t.push_back({a, c, d}); }
static std::vector<Tri> prism(std::vector<std::pair<double,double>> v, std::vector<std::array<int,3>> caps, double h) {
    std::vector<Tri> t; int n = v.size();
    for(int i = 0; i < n; ++i) { int j = (i + 1) % n; quad(t, Vector3D(v[i].first, v[i].second, 0), Vector3D(v[j].first, v[j].second, 0), Vector3D(v[j].first, v[j].second, h), Vector3D(v[i].first, v[i].second, h)); }
    for(auto const & c : caps) {
        t.push_back({Vector3D(v[c[0]].first, v[c[0]].second, h), Vector3D(v[c[1]].first, v[c[1]].second, h), Vector3D(v[c[2]].first, v[c[2]].second, h)});
        t.push_back({Vector3D(v[c[0]].first, v[c[0]].second, 0), Vector3D(v[c[2]].first, v[c[2]].second, 0), Vector3D(v[c[1]].first, v[c[1]].second, 0)});
    }
    return t;
}
static std::shared_ptr<Geometry> make(JV const & s, Placement const & P) {
    std::string k = gs(s, "k");
    std::vector<double> n; if(s.HasMember("n")) n = L(s, "n");
    double w0 = 0, w1 = 2 * M_PI; bool cut = false;
    if(s.HasMember("w")) { int a = s["w"][0].GetInt(), b = s["w"][1].GetInt(); w0 = eighth(a); if(b < 8) { w1 = eighth(b); cut = true; } }
    if(k == "box") return std::make_shared<Box>(P, n[0], n[1], n[2]);
    if(k == "sphere") {
        int t0 = s["th"][0].GetInt(), t1 = s["th"][1].GetInt();
        if(!cut && t0 == 0 && t1 == 4) return std::make_shared<Sphere>(P, n[0], n[1]);
        return std::make_shared<Sphere>(P, n[0], n[1], cut ? w0 : 0.0, w1, eighth(t0), eighth(t1));
    }
    if(k == "cylinder") return cut ? std::make_shared<Cylinder>(P, n[0], n[1], n[2], w0, w1) : std::make_shared<Cylinder>(P, n[0], n[1], n[2]);
    if(k == "cone") return cut ? std::make_shared<Cone>(P, n[0], n[1], n[2], n[3], n[4], w0, w1) : std::make_shared<Cone>(P, n[0], n[1], n[2], n[3], n[4]);
    if(k == "cuttube") {
        auto v = [&](char const * f) { auto const & a = ga(s, f); return Vector3D(a[0].GetDouble(), a[1].GetDouble(), a[2].GetDouble()); };
        return cut ? std::make_shared<CutTube>(P, n[0], n[1], n[2], v("lo"), v("hi"), w0, w1) : std::make_shared<CutTube>(P, n[0], n[1], n[2], v("lo"), v("hi"));
    }
    if(k == "ellipsoid") return n[3] <= -n[2] && n[4] >= n[2] ? std::make_shared<Ellipsoid>(P, n[0], n[1], n[2]) : std::make_shared<Ellipsoid>(P, n[0], n[1], n[2], n[3], n[4]);
    if(k == "eltube") return std::make_shared<EllipticalTube>(P, n[0], n[1], n[2]);
    if(k == "para" || k == "trap") {
        double ta = s["t"][0].GetDouble() / 2, tx = s["t"][1].GetDouble() / 2, ty = s["t"][2].GetDouble() / 2;
        double al = std::atan(ta), th = std::atan(std::sqrt(tx*tx + ty*ty)), ph = std::atan2(ty, tx);
        if(k == "para") return std::make_shared<Para>(P, n[0], n[1], n[2], al, th, ph);
        return std::make_shared<Trap>(P, n[0], th, ph, n[1], n[2], n[3], al, n[4], n[5], n[6], al);
    }
    if(k == "trd") return std::make_shared<Trd>(P, n[0], n[1], n[2], n[3], n[4]);
    if(k == "torus") return cut ? std::make_shared<Torus>(P, n[0], n[1], n[2], w0, w1) : std::make_shared<Torus>(P, n[0], n[1], n[2]);
    if(k == "polycone") return cut ? std::make_shared<Polycone>(P, L(s, "zs"), L(s, "is"), L(s, "os"), w0, w1) : std::make_shared<Polycone>(P, L(s, "zs"), L(s, "is"), L(s, "os"));
    if(k == "polyhedra") return cut ? std::make_shared<Polyhedra>(P, 3, w0, L(s, "zs"), L(s, "is"), L(s, "os"), w1) : std::make_shared<Polyhedra>(P, 4, w0, L(s, "zs"), L(s, "is"), L(s, "os"));
    if(k == "genpoly") return cut ? std::make_shared<GenericPolycone>(P, L(s, "os"), L(s, "zs"), w0, w1) : std::make_shared<GenericPolycone>(P, L(s, "os"), L(s, "zs"));
    if(k == "extr") {
        std::vector<std::vector<double>> v; for(auto const & x : ga(s, "V").GetArray()) v.push_back({x[0].GetDouble() * U, x[1].GetDouble() * U});
        std::vector<ExtrPoly::ZSection> z; for(auto const & x : ga(s, "S").GetArray()) { double o[2] = {x[2].GetDouble() * U, x[3].GetDouble() * U}; z.push_back(ExtrPoly::ZSection(x[0].GetDouble() * U, o, x[1].GetDouble() / 2)); }
        return std::make_shared<ExtrPoly>(P, v, z);
    }
    if(k == "meshbox") return std::make_shared<TriangularMesh>(P, prism({{0,0},{n[0],0},{n[0],n[1]},{0,n[1]}}, {{0,1,2},{0,2,3}}, n[2]));
    if(k == "meshell") return std::make_shared<TriangularMesh>(P, prism({{0,0},{2*n[0],0},{2*n[0],n[1]},{n[0],n[1]},{n[0],2*n[1]},{0,2*n[1]}}, {{0,1,2},{0,2,3},{0,3,4},{0,4,5}}, n[2]));
    if(k == "meshoct") {
        std::vector<Tri> t; double a = n[0];
        for(int i = 0; i < 8; ++i) { double x = i & 1 ? -a : a, y = i & 2 ? -a : a, z = i & 4 ? -a : a; Vector3D X(x,0,0), Y(0,y,0), Z(0,0,z); if(x*y*z > 0) t.push_back({X, Y, Z}); else t.push_back({X, Z, Y}); }
        return std::make_shared<TriangularMesh>(P, t);
    }
    if(k == "bool") {
        auto kid = [&](char const * f) { auto const & c = s[f]; auto const & t = ga(c, "t"); return make(c["s"], Placement(Vector3D(t[0].GetDouble() * U, t[1].GetDouble() * U, t[2].GetDouble() * U), quat(ga(c, "q")))); };
        std::string o = gs(s, "op");
        return std::make_shared<BooleanGeometry>(P, o == "union" ? BooleanOperation::UNION : o == "intersection" ? BooleanOperation::INTERSECTION : BooleanOperation::SUBTRACTION, kid("a"), kid("b"));
    }
    std::fprintf(stderr, "unknown solid %s\n", k.c_str()); std::exit(3);
}
typedef std::vector<Geometry::Intersection> Hits;
static bool inbox(AABB const & b, Vector3D const & p, double e = 1e-6) {
    return p.GetX() >= b.min_corner.GetX() - e && p.GetX() <= b.max_corner.GetX() + e && p.GetY() >= b.min_corner.GetY() - e && p.GetY() <= b.max_corner.GetY() + e && p.GetZ() >= b.min_corner.GetZ() - e && p.GetZ() <= b.max_corner.GetZ() + e;
}
template<class In, class Out> static std::shared_ptr<Geometry> reload(std::shared_ptr<Geometry> const & g) {
    std::stringstream ss; { Out o(ss); o(g); } std::shared_ptr<Geometry> r; { In i(ss); i(r); } return r;
}
// the same kind of solid with other contents, to be assigned over
static std::shared_ptr<Geometry> blank(Geometry const & g) {
#define B(C) if(dynamic_cast<C const *>(&g)) return std::make_shared<C>();
    B(Box) B(Sphere) B(Cylinder) B(Cone) B(CutTube) B(Ellipsoid) B(EllipticalTube) B(Para) B(Trd) B(Trap) B(Torus) B(Polycone) B(Polyhedra) B(GenericPolycone) B(ExtrPoly) B(TriangularMesh) B(BooleanGeometry)
    return nullptr;
}
int main(int argc, char ** argv) {
    Script S(argc, argv);
    for(auto const & l : S.lines) {
        rj::Document c; parse(c, l);
        Obj o; o.raw("c", js(c));
        auto V = [&](char const * k, double u) { auto const & a = ga(c, k); return Vector3D(a[0].GetDouble() * u, a[1].GetDouble() * u, a[2].GetDouble() * u); };
        Rigid M(ga(c, "Q"), ga(c, "T"));
        // the line is moved off the lattice by a hair, so that it meets no edge or corner (no small whole combination of the three vanishes)
        Vector3D q = V("q", U / 2) + Vector3D(8.24275e-5 * U, -9.54194e-5 * U, 3.42798e-5 * U), d = V("d", U);
        double step = d.magnitude(); int m = gi(c, "m"), f = gi(c, "f");
        Vector3D u = M.dir(d / step); u.normalize();
        std::shared_ptr<Geometry> g, g2;
        try {
            Vector3D T = V("T", U);
            Placement P(T, quat(ga(c, "Q")));
            g = make(c["s"], P);
            try { g2 = make(c["o"], P); } catch(std::exception const &) { }
            auto list = [&](Hits const & h, double base) { return arr(h, [&](Geometry::Intersection const & x) { return "[" + std::to_string(fx(x.distance / step + base, 1e5)) + (x.entering ? ",true]" : ",false]"); }); };
            Vector3D start = M.pos(q + d * m), other = M.pos(q + d * (m == 0 ? -6 : -m));
            Hits h = g->Intersections(start, u);
            o.b("failed", false).raw("hits", list(h, m));
            double pe = 0; bool boxed = true, boxed2 = true;
            AABB box = g->GetWorldBoundingBox();
            for(auto const & x : h) { Vector3D p = start + u * x.distance; pe = std::max(pe, (p - x.position).magnitude()); boxed = boxed && inbox(box, x.position); }
            o.i("poserr", fx(pe, 1e6));
            o.i("closest", fx(g->DistanceToClosestApproach(start, u) / step + m, 1e5));
            o.raw("shifted", list(g->Intersections(other, u), m == 0 ? -6 : -m));
            o.raw("reversed", list(g->Intersections(start, u * -1.0), -m));
            auto lc = g->ToLocal(start, u);
            o.raw("localframe", list(g->Intersections(lc.first, lc.second), m));
            auto cp = g->create();
            o.raw("copied", list(cp->Intersections(start, u), m));
            auto as = blank(*g); *as = *g;
            o.raw("assigned", list(as->Intersections(start, u), m));
            auto mv = make(c["s"], Placement(Vector3D(1, 2, 3), Quaternion(0.5, 0.5, 0.5, 0.5))); mv->GetWorldBoundingBox(); mv->SetPlacement(P);
            o.raw("moved", list(mv->Intersections(start, u), m));
            auto b1 = reload<cereal::BinaryInputArchive, cereal::BinaryOutputArchive>(g);
            o.raw("bin", list(b1->Intersections(start, u), m));
            auto b2 = reload<cereal::JSONInputArchive, cereal::JSONOutputArchive>(g);
            o.raw("json", list(b2->Intersections(start, u), m));
            for(auto const & x : h) for(auto const & y : {cp, as, mv, b1, b2}) boxed2 = boxed2 && inbox(y->GetWorldBoundingBox(), x.position);
            o.b("boxed", boxed).b("boxed2", boxed2);
            std::string pts;
            for(int j = -7; j <= 7; ++j) {
                int k = j * 5 + 1; Vector3D p = M.pos(q + d * (double(k) / f));
                pts += std::string(pts.empty() ? "" : ",") + "[" + std::to_string(k) + (g->IsInside(p) ? ",true" : ",false") + (g->IsInside(p, u) ? ",true" : ",false") + (inbox(box, p) ? ",true]" : ",false]");
            }
            o.raw("pts", "[" + pts + "]");
            o.b("eqcopy", *g == *cp && *g == *as && *g == *mv && !(*g != *cp)).b("eqload", *g == *b1 && *g == *b2).b("ltcopy", *g < *cp || *cp < *g || *g < *b1 || *b2 < *g || *g < *as);
            o.b("altok", bool(g2)).b("eqalt", g2 && *g == *g2).b("ltalt", g2 && *g < *g2).b("gtalt", g2 && *g2 < *g);
        } catch(std::exception const & e) { Obj x; x.raw("c", js(c)).b("failed", true).str("why", e.what()); S.emit(x.done()); continue; }
        S.emit(o.done());
    }
}
