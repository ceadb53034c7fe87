// Paths: ends moved, flipped and clipped along a line through a detector, and what is asked of them (M04).
// SRC: projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler|Polynomial) projects/serialization/ projects/utilities/private/(Errors|StringManip) projects/geometry/private/ projects/dataclasses/private/Particle projects/detector/private/
#include "vdrv.h"
#include <memory>
#include <limits>
#include <algorithm>
#include <cereal/types/memory.hpp>
#include <cereal/types/polymorphic.hpp>
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/BooleanGeometry.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/Path.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
using namespace vd; using namespace siren::math; using namespace siren::geometry; using namespace siren::detector; typedef siren::dataclasses::ParticleType PT;
static const double U = 0.25;   // length of a tick
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static const int PDG[3] = {1000010010, 1000080160, 1000822080};
static const char * MAT[3] = {"HYD", "OXY", "LEAD"};
struct Rigid {   // own rigid motion: geometry = R * detector + T
    double R[3][3] = {{1,0,0},{0,1,0},{0,0,1}}; Vector3D T{0,0,0};
    void set(JV const & q, JV const & t) {
        double w = q[0].GetDouble(), x = q[1].GetDouble(), y = q[2].GetDouble(), z = q[3].GetDouble(), n = w*w + x*x + y*y + z*z;
        double M[3][3] = {{w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)}, {2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)}, {2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z}};
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) R[i][j] = M[i][j] / n;
        T = Vector3D(t[0].GetDouble() * U, t[1].GetDouble() * U, t[2].GetDouble() * U);
    }
    Vector3D back(Vector3D const & d) const { return Vector3D(R[0][0]*d.GetX()+R[1][0]*d.GetY()+R[2][0]*d.GetZ(), R[0][1]*d.GetX()+R[1][1]*d.GetY()+R[2][1]*d.GetZ(), R[0][2]*d.GetX()+R[1][2]*d.GetY()+R[2][2]*d.GetZ()); }
};
// the same set of points, built from a box turned by quarter turns in its own placement
static std::shared_ptr<Geometry> box(JV const & b, int turn) {
    double lo[3], hi[3], w[3]; for(int i = 0; i < 3; ++i) { lo[i] = b[0][i].GetDouble() * U; hi[i] = b[1][i].GetDouble() * U; w[i] = hi[i] - lo[i]; }
    Vector3D mid((lo[0]+hi[0])/2, (lo[1]+hi[1])/2, (lo[2]+hi[2])/2); double h = std::sqrt(0.5);
    if(turn == 1) return std::make_shared<Box>(Placement(mid, Quaternion(0, 0, h, h)), w[1], w[0], w[2]);
    if(turn == 2) return std::make_shared<Box>(Placement(mid, Quaternion(h, 0, 0, h)), w[0], w[2], w[1]);
    if(turn == 3) return std::make_shared<Box>(Placement(mid, Quaternion(0.5, 0.5, 0.5, 0.5)), w[1], w[2], w[0]);
    return std::make_shared<Box>(Placement(mid), w[0], w[1], w[2]);
}
static DetectorSector sector(JV const & s, DetectorModel const & m) {
    DetectorSector r; r.name = gs(s, "n"); r.level = gi(s, "l"); r.material_id = m.GetMaterials().GetMaterialId(MAT[gi(s, "m") - 1]);
    r.density = ConstantDensityDistribution(double(gi(s, "r"))).create();
    int turn = (gi(s, "l") + 8) % 4; std::string t = gs(s, "t");
    if(t == "box") r.geo = box(s["b"], turn);
    else r.geo = std::make_shared<BooleanGeometry>(t == "union" ? BooleanOperation::UNION : t == "minus" ? BooleanOperation::SUBTRACTION : BooleanOperation::INTERSECTION, box(s["b"], turn), box(s["c"], (turn + 1) % 4));
    return r;
}
static std::string ints(std::vector<long long> const & v) { return arr(v, [](long long x) { return std::to_string(x); }); }
static long long clip(double x) { if(std::isnan(x)) return BAD; if(x > 9e4) return 1000000000; if(x < -9e4) return -1000000000; return std::llround(x * 1e4); }
int main(int argc, char ** argv) {
    Script S(argc, argv);
    for(auto const & l : S.lines) {
        rj::Document D; parse(D, l);
        std::vector<std::shared_ptr<DetectorModel>> M; Rigid F; F.set(D["Q"], D["O"]);
        JV const & q = D["Q"]; double qw = q[0].GetDouble(), qx = q[1].GetDouble(), qy = q[2].GetDouble(), qz = q[3].GetDouble(), qn = std::sqrt(qw*qw + qx*qx + qy*qy + qz*qz);
        for(auto const & w : D["worlds"].GetArray()) {
            auto m = std::make_shared<DetectorModel>();
            { MaterialModel mm = m->GetMaterials(); for(int i = 0; i < 3; ++i) mm.AddMaterial(MAT[i], std::map<int, double>{{PDG[i], 1.0}}); m->SetMaterials(mm); }
            for(auto const & s : w.GetArray()) m->AddSector(sector(s, *m));
            m->SetDetectorOrigin(GeometryPosition(F.T)); m->SetDetectorRotation(Quaternion(qx / qn, qy / qn, qz / qn, qw / qn));
            M.push_back(m);
        }
        auto const & MM = M[0]->GetMaterials(); std::vector<PT> T; std::vector<double> X; double L = 0, len = 1, st = 1; Vector3D q0, d, u; JV const * cp = nullptr;
        auto along = [&](int n) {
            JV const & c = D["lines"][n - 1]; cp = &c; T.clear(); X.clear();
            q0 = Vector3D(c["q"][0].GetDouble() * U, c["q"][1].GetDouble() * U, c["q"][2].GetDouble() * U); d = Vector3D(c["d"][0].GetDouble(), c["d"][1].GetDouble(), c["d"][2].GetDouble());
            len = d.magnitude(); st = U * len; u = d * (1 / len);
            for(int i = 0; i < 3; ++i) { double w = c["w"][i].GetDouble(); if(w > 0) { T.push_back(PT(PDG[i])); X.push_back(w / (MM.GetTargetParticleFraction(MM.GetMaterialId(MAT[i]), PT(PDG[i])) * 100 * st)); } }
            L = gi(c, "L") == 0 ? std::numeric_limits<double>::infinity() : gi(c, "L") * st;
        };
        along(1);
        auto G = [&](double k) { return q0 + d * (k * U); };
        auto P = [&](double k) { return DetectorPosition(F.back(G(k) - F.T)); };
        auto V = [&](double s) { return DetectorDirection(F.back(u) * s); };
        Path real(M[0]); int w = 1; long long x = 0, y = 0, s = 1; int step = 0;
        for(auto const & op : D["ops"].GetArray()) {
            Path & p = real; ++step; std::string a = gs(op, "a"); bool skipped = false, inf = std::llabs(x) >= 1000000000 || std::llabs(y) >= 1000000000;
            auto state = [&]() { return Obj().i("x", x).i("y", y).i("s", s).done(); };
            if(op.HasMember("ln")) along(gi(op, "ln"));
            JV const & c = *cp;
            Obj o; o.raw("worlds", js(D["worlds"])).raw("c", js(c)).raw("op", js(op)).raw("pre", state()).i("step", step);
            try {
                if(a == "set") { if(gb(op, "geo")) p.SetPoints(GeometryPosition(G(gi(op, "x"))), GeometryPosition(G(gi(op, "y")))); else p.SetPoints(P(gi(op, "x")), P(gi(op, "y"))); }
                else if(a == "ray") {
                    double n = gi(op, "len") < 0 ? std::numeric_limits<double>::infinity() : gi(op, "len") * st, sg = gi(op, "s");
                    if(gb(op, "geo")) p.SetPointsWithRay(GeometryPosition(G(gi(op, "x"))), GeometryDirection(u * sg), n); else p.SetPointsWithRay(P(gi(op, "x")), V(sg), n);
                }
                else if(a == "flip") p.Flip();
                else if(a == "clip") p.ClipToOuterBounds();
                else if(a == "model") { w = gi(op, "to"); p.SetDetectorModel(M[w - 1]); }
                else if(inf) skipped = true;
                else {
                    bool ext = a == "extend", end = gs(op, "from") == "end", by = gb(op, "by"); std::string k = gs(op, "kind"); double v = gi(op, "v");
                    if(k == "dist") {
                        v *= st;
                        if(by) { if(ext) { if(end) p.ExtendFromEndByDistance(v); else p.ExtendFromStartByDistance(v); } else { if(end) p.ShrinkFromEndByDistance(v); else p.ShrinkFromStartByDistance(v); } }
                        else { if(ext) { if(end) p.ExtendFromEndToDistance(v); else p.ExtendFromStartToDistance(v); } else { if(end) p.ShrinkFromEndToDistance(v); else p.ShrinkFromStartToDistance(v); } }
                    } else if(k == "col") {
                        v *= 100 * st; Path c0 = real; double more = by ? v : v - c0.GetColumnDepthInBounds();
                        if(ext && (end ? c0.GetDistanceFromEndAlongPath(more) : c0.GetDistanceFromStartInReverse(more)) > 9e4 * st) skipped = true;
                        else if(by) { if(ext) { if(end) p.ExtendFromEndByColumnDepth(v); else p.ExtendFromStartByColumnDepth(v); } else { if(end) p.ShrinkFromEndByColumnDepth(v); else p.ShrinkFromStartByColumnDepth(v); } }
                        else { if(ext) { if(end) p.ExtendFromEndToColumnDepth(v); else p.ExtendFromStartToColumnDepth(v); } else { if(end) p.ShrinkFromEndToColumnDepth(v); else p.ShrinkFromStartToColumnDepth(v); } }
                    } else {
                        v /= 4; Path c0 = real; double more = by ? v : v - c0.GetInteractionDepthInBounds(T, X, L);
                        if(ext && !((end ? c0.GetDistanceFromEndAlongPath(more, T, X, L) : c0.GetDistanceFromStartInReverse(more, T, X, L)) < 9e4 * st)) skipped = true;
                        else if(by) { if(ext) { if(end) p.ExtendFromEndByInteractionDepth(v, T, X, L); else p.ExtendFromStartByInteractionDepth(v, T, X, L); } else { if(end) p.ShrinkFromEndByInteractionDepth(v, T, X, L); else p.ShrinkFromStartByInteractionDepth(v, T, X, L); } }
                        else { if(ext) { if(end) p.ExtendFromEndToInteractionDepth(v, T, X, L); else p.ExtendFromStartToInteractionDepth(v, T, X, L); } else { if(end) p.ShrinkFromEndToInteractionDepth(v, T, X, L); else p.ShrinkFromStartToInteractionDepth(v, T, X, L); } }
                    }
                }
                // what is measured is measured on a copy, unless the history says that the path itself is looked at
                Path copy = real; Path & p = D["looks"][step - 1].GetBool() ? real : copy;
                GeometryDirection gd = p.GetGeoDirection(); Vector3D g0 = p.GetGeoFirstPoint().get(), g1 = p.GetGeoLastPoint().get(), d0 = p.GetFirstPoint().get(), d1 = p.GetLastPoint().get();
                s = gd.get() * u < 0 ? -1 : 1; bool online = (gd.get() - u * double(s)).magnitude() < 1e-9, frame = (F.back(gd.get()) - p.GetDirection().get()).magnitude() < 1e-9;
                auto where = [&](Vector3D const & g, Vector3D const & dt, int out) {
                    if(!std::isfinite(g.GetX()) || !std::isfinite(g.GetY()) || !std::isfinite(g.GetZ())) return 1000000000LL * out;
                    double t = (g - q0) * u; online = online && (g - q0 - u * t).magnitude() < 1e-7 * (1 + std::fabs(t)); frame = frame && (F.back(g - F.T) - dt).magnitude() < 1e-7 * (1 + std::fabs(t));
                    return clip(t / st);
                };
                x = where(g0, d0, -s); y = where(g1, d1, s); inf = std::llabs(x) >= 1000000000 || std::llabs(y) >= 1000000000;
                o.raw("post", state()).i("w", w).b("skipped", skipped).b("failed", false).b("online", online).b("frame", frame).i("len", clip(p.GetDistance() / st));
                if(inf) {
                    auto refuses = [&](std::function<void()> f) { try { f(); } catch(std::exception const &) { return true; } return false; };
                    o.b("ri", refuses([&] { p.GetColumnDepthInBounds(); })).b("rs", refuses([&] { p.GetColumnDepthFromStartAlongPath(7 * st); })).b("re", refuses([&] { p.GetColumnDepthFromEndAlongPath(7 * st); }));
                }
                if(!inf) {
                    double cu = 1e4 / (100 * st), iu = 60 * 1e4;
                    o.i("colin", fx(p.GetColumnDepthInBounds(), cu)).i("intin", fx(p.GetInteractionDepthInBounds(T, X, L), iu));
                    std::vector<long long> ts = {7, -4, step % 2 ? 40LL : 0LL}, vs = {step % 3 ? 5LL : 31LL, -3, 0};
                    auto all = [&](std::vector<long long> const & v, std::function<std::vector<long long>(long long)> f) { return arr(v, [&](long long t) { return ints(f(t)); }); };
                    o.raw("t", ints(ts)).raw("v", ints(vs));
                    o.raw("cs", all(ts, [&](long long t) { double z = t * st; return std::vector<long long>{fx(p.GetColumnDepthFromStartInBounds(z), cu), fx(p.GetColumnDepthFromStartAlongPath(z), cu), fx(p.GetColumnDepthFromStartInReverse(z), cu)}; }));
                    o.raw("ce", all(ts, [&](long long t) { double z = t * st; return std::vector<long long>{fx(p.GetColumnDepthFromEndInBounds(z), cu), fx(p.GetColumnDepthFromEndAlongPath(z), cu), fx(p.GetColumnDepthFromEndInReverse(z), cu)}; }));
                    o.raw("is", all(ts, [&](long long t) { double z = t * st; return std::vector<long long>{fx(p.GetInteractionDepthFromStartInBounds(z, T, X, L), iu), fx(p.GetInteractionDepthFromStartAlongPath(z, T, X, L), iu), fx(p.GetInteractionDepthFromStartInReverse(z, T, X, L), iu)}; }));
                    o.raw("ie", all(ts, [&](long long t) { double z = t * st; return std::vector<long long>{fx(p.GetInteractionDepthFromEndInBounds(z, T, X, L), iu), fx(p.GetInteractionDepthFromEndAlongPath(z, T, X, L), iu), fx(p.GetInteractionDepthFromEndInReverse(z, T, X, L), iu)}; }));
                    o.raw("dcs", all(vs, [&](long long v) { double z = v * 100 * st; return std::vector<long long>{clip(p.GetDistanceFromStartInBounds(z) / st), clip(p.GetDistanceFromStartAlongPath(z) / st), clip(p.GetDistanceFromStartInReverse(z) / st)}; }));
                    o.raw("dce", all(vs, [&](long long v) { double z = v * 100 * st; return std::vector<long long>{clip(p.GetDistanceFromEndInBounds(z) / st), clip(p.GetDistanceFromEndAlongPath(z) / st), clip(p.GetDistanceFromEndInReverse(z) / st)}; }));
                    o.raw("dis", all(vs, [&](long long v) { double z = v / 4.0; return std::vector<long long>{clip(p.GetDistanceFromStartInBounds(z, T, X, L) / st), clip(p.GetDistanceFromStartAlongPath(z, T, X, L) / st), clip(p.GetDistanceFromStartInReverse(z, T, X, L) / st)}; }));
                    o.raw("die", all(vs, [&](long long v) { double z = v / 4.0; return std::vector<long long>{clip(p.GetDistanceFromEndInBounds(z, T, X, L) / st), clip(p.GetDistanceFromEndAlongPath(z, T, X, L) / st), clip(p.GetDistanceFromEndInReverse(z, T, X, L) / st)}; }));
                    std::vector<long long> at = {-35, -11, -3, 2, 8, 21, 33}; o.raw("at", ints(at));
                    o.raw("within", arr(at, [&](long long k) { return std::string(p.IsWithinBounds(GeometryPosition(G(k))) ? "[true" : "[false") + (p.IsWithinBounds(P(k)) ? ",true]" : ",false]"); }));
                    o.raw("ds", all(at, [&](long long k) { return std::vector<long long>{clip(p.GetDistanceFromStartInBounds(GeometryPosition(G(k))) / st), clip(p.GetDistanceFromStartInBounds(P(k)) / st)}; }));
                }
            } catch(std::exception const & e) { Obj f; f.raw("worlds", js(D["worlds"])).raw("c", js(c)).raw("op", js(op)).raw("pre", state()).raw("post", state()).i("w", w).b("failed", true).str("why", e.what()); S.emit(f.done()); break; }
            S.emit(o.done());
        }
    }
}
