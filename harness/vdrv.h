// Common helpers of the conformance drivers: JSON scripts in, ndjson observations out.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <array>
#include <fstream>
#include <iostream>
#include <sstream>
#include <functional>
#include <stdexcept>
#include <cereal/cereal.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/binary.hpp>

namespace vd {
#ifndef CEREAL_RAPIDJSON_NAMESPACE
namespace rj = ::rapidjson;
#else
namespace rj = ::CEREAL_RAPIDJSON_NAMESPACE;
#endif
typedef rj::Value JV;

inline std::string q(std::string const & s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string hex(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)u); return b; }
inline std::string qhex(double d) { return "\"" + hex(d) + "\""; }

// A JSON object under construction
struct Obj {
    std::string s = "{"; bool first = true;
    Obj & raw(std::string const & k, std::string const & v) { if(!first) s += ","; first = false; s += q(k) + ":" + v; return *this; }
    Obj & str(std::string const & k, std::string const & v) { return raw(k, q(v)); }
    Obj & i(std::string const & k, long long v) { return raw(k, std::to_string(v)); }
    Obj & b(std::string const & k, bool v) { return raw(k, v ? "true" : "false"); }
    Obj & d(std::string const & k, double v) { return raw(k, qhex(v)); }
    std::string done() const { return s + "}"; }
};
template<class C, class F> std::string arr(C const & c, F f) {
    std::string s = "["; bool first = true;
    for(auto const & x : c) { if(!first) s += ","; first = false; s += f(x); }
    return s + "]";
}
inline std::string arrd(std::vector<double> const & v) { return arr(v, [](double x){ return qhex(x); }); }

// fixed point: nearest integer of x*scale; non finite or out-of-range values become the sentinel
// 2147483647 (which no specification value equals)
static const long long BAD = 2147483647LL;
inline long long fx(double x, double scale) {
    double v = x * scale;
    if(!std::isfinite(v) || std::fabs(v) > 2.0e9) return BAD;
    return (long long) std::llround(v);
}

struct Script {
    std::vector<std::string> lines;
    FILE * out = nullptr;
    Script(int argc, char ** argv) {
        if(argc < 3) { std::fprintf(stderr, "usage: driver script out\n"); std::exit(3); }
        std::ifstream is(argv[1]);
        if(!is) { std::fprintf(stderr, "no script\n"); std::exit(3); }
        std::string l;
        while(std::getline(is, l)) if(!l.empty()) lines.push_back(l);
        out = std::fopen(argv[2], "w");
        if(!out) { std::fprintf(stderr, "cannot write\n"); std::exit(3); }
    }
    void emit(std::string const & s) { std::fputs(s.c_str(), out); std::fputc('\n', out); std::fflush(out); }
    ~Script() { if(out) std::fclose(out); }
};
inline void parse(rj::Document & d, std::string const & l) {
    d.Parse(l.c_str());
    if(d.HasParseError()) { std::fprintf(stderr, "bad script line: %s\n", l.c_str()); std::exit(3); }
}
inline std::string gs(JV const & v, char const * k) { if(!v.HasMember(k) || !v[k].IsString()) { std::fprintf(stderr, "missing string %s\n", k); std::exit(3);} return v[k].GetString(); }
inline long long gi(JV const & v, char const * k) { if(!v.HasMember(k) || !v[k].IsInt64()) { std::fprintf(stderr, "missing int %s\n", k); std::exit(3);} return v[k].GetInt64(); }
inline bool gb(JV const & v, char const * k) { if(!v.HasMember(k) || !v[k].IsBool()) { std::fprintf(stderr, "missing bool %s\n", k); std::exit(3);} return v[k].GetBool(); }
inline JV const & ga(JV const & v, char const * k) { if(!v.HasMember(k) || !v[k].IsArray()) { std::fprintf(stderr, "missing array %s\n", k); std::exit(3);} return v[k]; }
inline double unhex(std::string const & s) { std::uint64_t u = std::strtoull(s.c_str(), nullptr, 16); double d; std::memcpy(&d, &u, 8); return d; }
inline std::vector<double> gdv(JV const & v, char const * k) { std::vector<double> r; for(auto const & x : ga(v, k).GetArray()) r.push_back(x.IsString() ? unhex(x.GetString()) : x.GetDouble()); return r; }
inline double gd(JV const & v, char const * k) { if(!v.HasMember(k)) { std::fprintf(stderr, "missing number %s\n", k); std::exit(3);} auto const & x = v[k]; return x.IsString() ? unhex(x.GetString()) : x.GetDouble(); }
}
