// Placements (G02).
// SRC: projects/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles) projects/serialization/ projects/utilities/private/(Errors|StringManip) geometry/private/Placement
#include "vdrv.h"
#include <memory>
#include "SIREN/geometry/Placement.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/Vector3D.h"
using namespace vd; using namespace siren::math; using siren::geometry::Placement;
static inline std::string js(JV const & v) { rj::StringBuffer b; rj::Writer<rj::StringBuffer> w(b); v.Accept(w); return b.GetString(); }
static Vector3D vec(JV const & v) { return Vector3D(v[0].GetDouble(), v[1].GetDouble(), v[2].GetDouble()); }
static Quaternion quat(JV const & v) { return Quaternion(v[0].GetDouble(), v[1].GetDouble(), v[2].GetDouble(), v[3].GetDouble()); }
static std::string L(std::vector<double> const & v, double s = 1e4) { return arr(v, [&](double x) { return std::to_string(fx(x, s)); }); }
static std::string S(Vector3D const & v, double s = 1e4) { return L({v.GetX(), v.GetY(), v.GetZ()}, s); }
template<class O, class I> static Placement reload(Placement const & d) { std::stringstream ss; { O a(ss); a(cereal::make_nvp("d", d)); } Placement r(Vector3D(7, 7, 7), Quaternion(1, 2, 3, 4)); { I a(ss); a(cereal::make_nvp("d", r)); } return r; }
int main(int argc, char ** argv) {
    Script sc(argc, argv);
    std::vector<Vector3D> vs = {Vector3D(0, 0, 0), Vector3D(1, 0, 0), Vector3D(0, -2, 0), Vector3D(1, 2, 3), Vector3D(-4, 0, 1)};
    for(auto const & line : sc.lines) {
        rj::Document d; parse(d, line); Obj o; Placement p[2]; std::vector<std::string> steps;
        for(auto const & op : d["ops"].GetArray()) {
            std::string k = gs(op, "op"); int n = gi(op, "k") - 1; Placement & x = p[n], & y = p[1 - n]; Vector3D t = vec(op["t"]); Quaternion q = quat(op["q"]);
            if(k == "pos") x.SetPosition(t); else if(k == "rot") x.SetQuaternion(q); else if(k == "make") x = Placement(t, q); else if(k == "makepos") x = Placement(t); else if(k == "makerot") x = Placement(q);
            else if(k == "reset") x = Placement(); else if(k == "assign") { x = y; x = *&x; } else if(k == "copy") { Placement c(y); x.swap(c); } else if(k == "create") { x = *y.create(); } else if(k == "move") { Placement c(std::move(y)); x = std::move(c); y = Placement(); }
            else if(k == "swap") x.swap(y); else if(k == "binary") x = reload<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(x); else x = reload<cereal::JSONOutputArchive, cereal::JSONInputArchive>(x);
            std::vector<int> ks = {0, 1};
            steps.push_back(Obj().raw("p", arr(ks, [&](int j) { Placement const & z = p[j]; auto each = [&](std::function<Vector3D(Vector3D const &)> f) { return arr(vs, [&](Vector3D const & v) { return S(f(v)); }); }; Quaternion u = z.GetQuaternion();
                return Obj().raw("pos", S(z.GetPosition(), 1)).raw("q", L({u.GetX(), u.GetY(), u.GetZ(), u.GetW()})).b("id", z.IsIdentity())
                    .raw("l2g", each([&](Vector3D const & v) { return z.LocalToGlobalPosition(v); })).raw("g2l", each([&](Vector3D const & v) { return z.GlobalToLocalPosition(v); }))
                    .raw("dl2g", each([&](Vector3D const & v) { return z.LocalToGlobalDirection(v); })).raw("dg2l", each([&](Vector3D const & v) { return z.GlobalToLocalDirection(v); }))
                    .raw("rot", each([&](Vector3D const & v) { return z.Rotate(v, false); })).raw("rotinv", each([&](Vector3D const & v) { return z.Rotate(v, true); }))
                    .raw("back", each([&](Vector3D const & v) { return z.GlobalToLocalPosition(z.LocalToGlobalPosition(v)); })).done(); }))
                .b("eq", p[0] == p[1]).b("ne", p[0] != p[1]).b("lt", p[0] < p[1]).b("gt", p[1] < p[0]).done());
        }
        o.raw("ops", js(d["ops"])).raw("vs", arr(vs, [](Vector3D const & v) { return S(v, 1); })).raw("steps", arr(steps, [](std::string const & s) { return s; }));
        sc.emit(o.done());
    }
}
