// Detector models: histories of sectors and frames, lines through them (M03).
// SRC: projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Euler|Polynomial) projects/serialization/ projects/utilities/private/(Errors|StringManip) projects/geometry/private/ projects/dataclasses/private/Particle projects/detector/private/
#include "vdrv.h"
#include <memory>
#include <limits>
#include <algorithm>
#include <cereal/types/memory.hpp>
#include <cereal/types/polymorphic.hpp>
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/BooleanGeometry.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/Path.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
using namespace vd; using namespace siren::math; using namespace siren::geometry; using namespace siren::detector; typedef siren::dataclasses::ParticleType PT;
static const double U = 0.25;   // length of a tick
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static const int PDG[3] = {1000010010, 1000080160, 1000822080};
static const char * MAT[3] = {"HYD", "OXY", "LEAD"};
struct Rigid {   // own rigid motion: geometry = R * detector + T
    double R[3][3] = {{1,0,0},{0,1,0},{0,0,1}}; Vector3D T{0,0,0};
    void set(JV const & q, JV const & t) {
        double w = q[0].GetDouble(), x = q[1].GetDouble(), y = q[2].GetDouble(), z = q[3].GetDouble(), n = w*w + x*x + y*y + z*z;
        double M[3][3] = {{w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)}, {2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)}, {2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z}};
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) R[i][j] = M[i][j] / n;
        T = Vector3D(t[0].GetDouble() * U, t[1].GetDouble() * U, t[2].GetDouble() * U);
    }
    Vector3D back(Vector3D const & d) const { return Vector3D(R[0][0]*d.GetX()+R[1][0]*d.GetY()+R[2][0]*d.GetZ(), R[0][1]*d.GetX()+R[1][1]*d.GetY()+R[2][1]*d.GetZ(), R[0][2]*d.GetX()+R[1][2]*d.GetY()+R[2][2]*d.GetZ()); }
};
// the same set of points, built from a box turned by quarter turns in its own placement
static std::shared_ptr<Geometry> box(JV const & b, int turn) {
    double lo[3], hi[3], w[3]; for(int i = 0; i < 3; ++i) { lo[i] = b[0][i].GetDouble() * U; hi[i] = b[1][i].GetDouble() * U; w[i] = hi[i] - lo[i]; }
    Vector3D mid((lo[0]+hi[0])/2, (lo[1]+hi[1])/2, (lo[2]+hi[2])/2); double h = std::sqrt(0.5);
    if(turn == 1) return std::make_shared<Box>(Placement(mid, Quaternion(0, 0, h, h)), w[1], w[0], w[2]);
    if(turn == 2) return std::make_shared<Box>(Placement(mid, Quaternion(h, 0, 0, h)), w[0], w[2], w[1]);
    if(turn == 3) return std::make_shared<Box>(Placement(mid, Quaternion(0.5, 0.5, 0.5, 0.5)), w[1], w[2], w[0]);
    return std::make_shared<Box>(Placement(mid), w[0], w[1], w[2]);
}
static DetectorSector sector(JV const & s, DetectorModel const & m) {
    DetectorSector r; r.name = gs(s, "n"); r.level = gi(s, "l"); r.material_id = m.GetMaterials().GetMaterialId(MAT[gi(s, "m") - 1]);
    r.density = ConstantDensityDistribution(double(gi(s, "r"))).create();
    int turn = (gi(s, "l") + 8) % 4; std::string t = gs(s, "t");
    if(t == "box") r.geo = box(s["b"], turn);
    else r.geo = std::make_shared<BooleanGeometry>(t == "union" ? BooleanOperation::UNION : t == "minus" ? BooleanOperation::SUBTRACTION : BooleanOperation::INTERSECTION, box(s["b"], turn), box(s["c"], (turn + 1) % 4));
    return r;
}
template<class O, class I> static std::shared_ptr<DetectorModel> reload(std::shared_ptr<DetectorModel> const & d) { std::stringstream ss; { O a(ss); a(cereal::make_nvp("d", d)); } std::shared_ptr<DetectorModel> r; { I a(ss); a(cereal::make_nvp("d", r)); } return r; }
static long long lev(DetectorSector const & s) { return s.level == std::numeric_limits<int>::min() ? -1000 : s.level; }
static std::string ints(std::vector<long long> const & v) { return arr(v, [](long long x) { return std::to_string(x); }); }
static long long clip(double x) { if(std::isnan(x)) return BAD; if(x > 1e5) return 1000000000; if(x < -1e5) return -1000000000; return std::llround(x * 1e4); }
int main(int argc, char ** argv) {
    Script S(argc, argv);
    for(auto const & l : S.lines) {
        rj::Document D; parse(D, l);
        auto m = std::make_shared<DetectorModel>();
        { MaterialModel mm = m->GetMaterials(); for(int i = 0; i < 3; ++i) mm.AddMaterial(MAT[i], std::map<int, double>{{PDG[i], 1.0}}); m->SetMaterials(mm); }
        DetectorSector universe = m->GetSectors().at(0);
        Rigid F; std::string sofar;
        for(auto const & e : D.GetArray()) {
            sofar += (sofar.empty() ? "" : ",") + js(e);
            Obj o; o.raw("h", "[" + sofar + "]");
            JV const & op = e["op"]; JV const & c = e["c"]; std::string a = gs(op, "a"); bool refused = false;
            try {
                try {
                    if(a == "add") m->AddSector(sector(op["s"], *m));
                    else if(a == "set") { std::vector<DetectorSector> v{universe}; for(auto const & s : op["ss"].GetArray()) v.push_back(sector(s, *m)); m->SetSectors(v); }
                    else if(a == "clear") { m->ClearSectors(); m->AddSector(universe); }
                    else if(a == "frame") {
                        F.set(op["Q"], op["O"]); JV const & q = op["Q"]; double w = q[0].GetDouble(), x = q[1].GetDouble(), y = q[2].GetDouble(), z = q[3].GetDouble(), n = std::sqrt(w*w + x*x + y*y + z*z);
                        m->SetDetectorOrigin(GeometryPosition(F.T)); m->SetDetectorRotation(Quaternion(x / n, y / n, z / n, w / n));
                    } else if(a == "reload") m = gb(op, "json") ? reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(m) : reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(m);
                } catch(std::runtime_error const &) { refused = true; }
                o.b("failed", false).str("why", "").b("refused", refused);
                std::string secs, byl, byn;
                for(auto const & s : m->GetSectors()) if(s.level != std::numeric_limits<int>::min()) {
                    auto sep = secs.empty() ? "" : ",";
                    secs += sep + ("[" + q(s.name) + "," + std::to_string(s.level) + "]");
                    byl += sep + q(m->GetSector(s.level).name); byn += sep + std::to_string(m->GetSector(s.name).level);
                }
                o.raw("sectors", "[" + secs + "]").raw("bylevel", "[" + byl + "]").raw("byname", "[" + byn + "]");
                Vector3D q0(c["q"][0].GetDouble() * U, c["q"][1].GetDouble() * U, c["q"][2].GetDouble() * U), d(c["d"][0].GetDouble(), c["d"][1].GetDouble(), c["d"][2].GetDouble());
                double len = d.magnitude(), st = U * len; Vector3D u = d * (1 / len);
                auto G = [&](double k) { return q0 + d * (k * U); };
                auto P = [&](double k) { return DetectorPosition(F.back(G(k) - F.T)); };
                auto V = [&](double s) { return DetectorDirection(F.back(u) * s); };
                bool frame = true;
                for(double k : {0.0, -17.5}) {
                    frame = frame && (m->ToDet(GeometryPosition(G(k))).get() - P(k).get()).magnitude() < 1e-9 && (m->ToGeo(P(k)).get() - G(k)).magnitude() < 1e-9
                         && (m->ToDet(GeometryDirection(u)).get() - V(1).get()).magnitude() < 1e-9 && (m->ToGeo(V(1)).get() - u).magnitude() < 1e-9;
                    GeometryPosition g(G(k)); DetectorPosition p(P(k)); GeometryDirection gd(u); DetectorDirection pd(V(1));
                    frame = frame && (m->ToDet(g).get() - p.get()).magnitude() < 1e-9 && (m->ToGeo(p).get() - g.get()).magnitude() < 1e-9 && (m->ToDet(gd).get() - pd.get()).magnitude() < 1e-9 && (m->ToGeo(pd).get() - gd.get()).magnitude() < 1e-9;
                }
                o.b("frame", frame);
                auto const & M = m->GetMaterials();
                double frac[3]; std::vector<PT> all, T; std::vector<double> X;
                for(int i = 0; i < 3; ++i) {
                    frac[i] = M.GetTargetParticleFraction(M.GetMaterialId(MAT[i]), PT(PDG[i])); all.push_back(PT(PDG[i]));
                    double w = c["w"][i].GetDouble(); if(w > 0) { T.push_back(PT(PDG[i])); X.push_back(w / (frac[i] * 100 * st)); }
                }
                double L = gi(c, "L") == 0 ? std::numeric_limits<double>::infinity() : gi(c, "L") * st;
                double base = gi(c, "base"), sg = gb(c, "rev") ? -1 : 1;
                auto I = m->GetIntersections(P(base), V(sg));
                std::string spots;
                for(int k = -34; k <= 34; k += 3) {
                    bool face = false; for(int i = 0; i < 3; ++i) face = face || (c["q"][i].GetInt() + k * c["d"][i].GetInt()) % 6 == 0;
                    if(face) continue;
                    Obj x; x.i("k", k).i("lv", lev(m->GetContainingSector(P(k)))).i("lw", lev(m->GetContainingSector(I, P(k))));
                    x.raw("rho", ints({fx(m->GetMassDensity(P(k)), 1000), fx(m->GetMassDensity(I, P(k)), 1000)}));
                    auto av = m->GetAvailableTargets(P(k)), av2 = m->GetAvailableTargets(I, P(k)); std::string has; std::vector<long long> nuc;
                    std::set<PT> as(all.begin(), all.end()); auto v1 = m->GetParticleDensity(P(k), as), v2 = m->GetParticleDensity(I, P(k), as);
                    for(int i = 0; i < 3; ++i) {
                        double n1 = m->GetParticleDensity(P(k), PT(PDG[i])), n2 = m->GetParticleDensity(I, P(k), PT(PDG[i]));
                        int at = std::distance(as.begin(), as.find(PT(PDG[i])));
                        bool same = std::fabs(n1 - n2) <= 1e-9 * std::fabs(n1) && std::fabs(n1 - v1.at(at)) <= 1e-9 * std::fabs(n1) && std::fabs(n1 - v2.at(at)) <= 1e-9 * std::fabs(n1);
                        nuc.push_back(same ? fx(n1 / frac[i], 1000) : BAD);
                        has += std::string(i ? "," : "") + (av.count(PT(PDG[i])) ? "true" : "false"); if(av.count(PT(PDG[i])) != av2.count(PT(PDG[i]))) has += ",false,false";
                    }
                    x.raw("nuc", ints(nuc)).raw("has", "[" + has + "]").raw("rate", ints({fx(m->GetInteractionDensity(P(k), T, X, L) * st, 60000), fx(m->GetInteractionDensity(I, P(k), T, X, L) * st, 60000)}));
                    spots += (spots.empty() ? "" : ",") + x.done();
                }
                o.raw("spots", "[" + spots + "]");
                double k1 = c["ks"][0].GetDouble(), k2 = c["ks"][1].GetDouble(), k3 = c["ks"][2].GetDouble(), cs = 2000 / (100 * st);
                o.raw("col", ints({fx(m->GetColumnDepthInCGS(P(k1), P(k2)), cs), fx(m->GetColumnDepthInCGS(I, P(k1), P(k2)), cs), fx(m->GetColumnDepthInCGS(P(k2), P(k1)), cs), fx(m->GetColumnDepthInCGS(I, P(k2), P(k1)), cs)}));
                auto pc = m->GetParticleColumnDepth(I, P(k1), P(k2), all); std::vector<long long> parts; for(int i = 0; i < 3; ++i) parts.push_back(fx(pc.at(i) / frac[i], cs)); o.raw("parts", ints(parts));
                o.raw("depth", ints({fx(m->GetInteractionDepthInCGS(P(k1), P(k2), T, X, L), 12000), fx(m->GetInteractionDepthInCGS(I, P(k1), P(k2), T, X, L), 12000), fx(m->GetInteractionDepthInCGS(P(k2), P(k1), T, X, L), 12000), fx(m->GetInteractionDepthInCGS(I, P(k2), P(k1), T, X, L), 12000)}));
                double X2 = gi(c, "X") / 2.0 * 100 * st, Y = gi(c, "Y") / 120.0; DetectorDirection v = V(1);
                o.raw("cf", ints({clip(m->DistanceForColumnDepthFromPoint(P(k3), v, X2) / st), clip(m->DistanceForColumnDepthFromPoint(I, P(k3), v, X2) / st)}));
                o.raw("cb", ints({clip(m->DistanceForColumnDepthFromPoint(P(k3), v, -X2) / st), clip(m->DistanceForColumnDepthFromPoint(I, P(k3), v, -X2) / st)}));
                o.raw("ct", ints({clip(m->DistanceForColumnDepthToPoint(P(k3), v, X2) / st), clip(m->DistanceForColumnDepthToPoint(I, P(k3), v, X2) / st)}));
                o.raw("df", ints({clip(m->DistanceForInteractionDepthFromPoint(P(k3), v, Y, T, X, L) / st), clip(m->DistanceForInteractionDepthFromPoint(I, P(k3), v, Y, T, X, L) / st)}));
                o.raw("db", ints({clip(m->DistanceForInteractionDepthFromPoint(P(k3), v, -Y, T, X, L) / st), clip(m->DistanceForInteractionDepthFromPoint(I, P(k3), v, -Y, T, X, L) / st)}));
                o.raw("dt", ints({clip(m->DistanceForInteractionDepthToPoint(P(k3), v, Y, T, X, L) / st), clip(m->DistanceForInteractionDepthToPoint(I, P(k3), v, Y, T, X, L) / st)}));
                std::vector<long long> ob; for(auto const & x : m->GetOuterBounds(P(base), V(sg)).intersections) ob.push_back(fx(base + sg * x.distance / st, 1000)); std::sort(ob.begin(), ob.end()); o.raw("outer", ints(ob));
            } catch(std::exception const & x) { Obj f; f.raw("h", "[" + sofar + "]").b("failed", true).str("why", x.what()); S.emit(f.done()); break; }
            S.emit(o.done());
        }
    }
}
