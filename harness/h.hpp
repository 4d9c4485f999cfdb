// Shared plumbing of the conformance harness: a line-oriented command interpreter.
// Each input line is one command; each output line is one JSON object.
#pragma once
#include <cmath>
#include <bland/bland.hpp>
#include <bland/ndarray.hpp>
#include <bland/ndarray_deferred.hpp>
#include <bland/ndarray_slice.hpp>
#include <bland/ops/ops.hpp>
#include <core/cadence.hpp>
#include <core/coarse_channel.hpp>
#include <core/event.hpp>
#include <core/scan.hpp>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct bad_command : std::exception {
    std::string m;
    explicit bad_command(std::string s) : m(std::move(s)) {}
    const char *what() const noexcept override { return m.c_str(); }
};

struct In {
    std::vector<std::string> tok;
    size_t                   pos = 0;
    std::string              s() {
        if (pos >= tok.size()) throw bad_command("missing token");
        return tok[pos++];
    }
    int64_t              i() { return std::stoll(s()); }
    double               d() { return std::stod(s()); }
    bool                 more() const { return pos < tok.size(); }
    std::vector<int64_t> iv() {
        std::vector<int64_t> v(i());
        for (auto &x : v) x = i();
        return v;
    }
    std::vector<double> dv() {
        std::vector<double> v(i());
        for (auto &x : v) x = d();
        return v;
    }
    std::string str() { // "_" is the empty string
        auto t = s();
        return t == "_" ? "" : t;
    }
};

struct Out {
    std::string b;
    bool        first = true;
    void        key(const char *k) {
        if (!first) b += ",";
        first = false;
        b += "\"";
        b += k;
        b += "\":";
    }
    void raw(const char *k, const std::string &v) { key(k), b += v; }
    void num(const char *k, double v);
    void i(const char *k, int64_t v) { raw(k, std::to_string(v)); }
    void boolean(const char *k, bool v) { raw(k, v ? "true" : "false"); }
    void str(const char *k, const std::string &v);
    void iv(const char *k, const std::vector<int64_t> &v);
    void dv(const char *k, const std::vector<double> &v);
};

std::string jnum(double v);
std::string jstr(const std::string &v);
std::string jiv(const std::vector<int64_t> &v);
std::string jdv(const std::vector<double> &v);
std::string jarray(const bland::ndarray &a); // layout + logical values of an array
std::vector<double> logical_values(const bland::ndarray &a);
std::string jhit(const bliss::hit &h);
std::string jhits(const std::list<bliss::hit> &h);

using cmd_fn = std::function<void(In &, Out &)>;
std::map<std::string, cmd_fn> &commands();
struct reg {
    reg(const char *n, cmd_fn f) { commands()[n] = std::move(f); }
};

struct State {
    // what other libraries hold on to, or lent; outlives the arrays
    std::vector<std::shared_ptr<void>> kept, lent;
    int unit = 0; // single-precision elements are whole numbers of 2^unit
    std::map<std::string, bland::ndarray>            A;
    std::map<std::string, bland::ndarray_deferred>   D;
    std::map<std::string, std::shared_ptr<int>>      counters;
    std::map<std::string, bliss::coarse_channel>     C;
    std::map<std::string, bliss::scan>               S;
    std::map<std::string, bliss::observation_target> T;
    std::map<std::string, bliss::cadence>            K;
    std::map<std::string, std::list<bliss::hit>>     H;
    std::map<std::string, std::vector<bliss::event>> E;
    std::map<std::string, std::shared_ptr<bliss::frequency_drift_plane>> P;
    std::shared_ptr<std::vector<std::string>>        log = std::make_shared<std::vector<std::string>>();
};
extern State st;
inline double in_units(double v) { return std::ldexp(v, st.unit); }
inline double of_units(double v) { return std::ldexp(v, -st.unit); }
template <class M>
auto &at(M &m, const std::string &k) {
    auto it = m.find(k);
    if (it == m.end()) throw bad_command("unknown name " + k);
    return it->second;
}
bland::ndarray::datatype parse_dtype(const std::string &s);
bliss::hit parse_hit(In &in);
