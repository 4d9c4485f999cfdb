#include "h.hpp"
#include <algorithm>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <drift_search/connected_components.hpp>
#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <drift_search/local_maxima.hpp>
#include <drift_search/protohit_search.hpp>
#include <estimators/noise_estimate.hpp>
#include <estimators/spectral_kurtosis.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <file_types/events_file.hpp>
#include <file_types/h5_filterbank_file.hpp>
#include <file_types/hits_file.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <H5Cpp.h>
using namespace bliss;

std::string jhit(const hit &h) {
    Out o;
    o.i("idx", h.start_freq_index);
    o.num("freq", h.start_freq_MHz);
    o.num("t0", h.start_time_sec);
    o.num("dur", h.duration_sec);
    o.i("rate", h.rate_index);
    o.num("drift", h.drift_rate_Hz_per_sec);
    o.num("power", h.power);
    o.i("span", h.time_span_steps);
    o.num("snr", h.snr);
    o.num("bw", h.bandwidth);
    o.i("binw", h.binwidth);
    o.i("cc", h.coarse_channel_number);
    std::string r = "{";
    bool        f = true;
    for (auto &[k, v] : h.rfi_counts) {
        r += (f ? "\"" : ",\"") + std::to_string(int(k)) + "\":" + std::to_string(int(v));
        f = false;
    }
    o.raw("rfi", r + "}");
    return "{" + o.b + "}";
}
std::string jhits(const std::list<hit> &h) {
    std::string b = "[";
    bool        f = true;
    for (auto &x : h) {
        if (!f) b += ",";
        f = false;
        b += jhit(x);
    }
    return b + "]";
}
hit parse_hit(In &in) {
    hit h;
    h.start_freq_index      = in.i();
    h.start_freq_MHz        = in.d();
    h.start_time_sec        = in.d();
    h.duration_sec          = in.d();
    h.rate_index            = in.i();
    h.drift_rate_Hz_per_sec = in.d();
    h.power                 = in.d();
    h.time_span_steps       = in.i();
    h.snr                   = in.d();
    h.bandwidth             = in.d();
    h.binwidth              = in.i();
    h.coarse_channel_number = in.i();
    int n                   = in.i();
    for (int k = 0; k < n; ++k) {
        auto key          = static_cast<flag_values>(in.i());
        h.rfi_counts[key] = in.i();
    }
    return h;
}
static std::list<hit> parse_hits(In &in) {
    std::list<hit> l;
    int            n = in.i();
    for (int k = 0; k < n; ++k) l.push_back(parse_hit(in));
    return l;
}

static std::shared_ptr<coarse_channel> as_ptr(const coarse_channel &c) { return std::make_shared<coarse_channel>(c); }
template <class F>
static void opt(Out &o, const char *k, F f) {
    try {
        o.num(k, double(f()));
    } catch (const std::bad_optional_access &) {
        o.raw(k, "null");
    }
}
static void jcc_md(Out &o, const coarse_channel &c) {
    o.num("fch1", c.fch1()), o.num("foff", c.foff());
    o.i("nchans", c.nchans()), o.i("nt", c.ntsteps()), o.i("nifs", c.nifs());
    o.str("src", c.source_name());
    o.num("tsamp", c.tsamp()), o.num("tstart", c.tstart());
    o.i("num", c._coarse_channel_number);
    opt(o, "raj", [&] { return c.src_raj(); });
    opt(o, "dej", [&] { return c.src_dej(); });
    opt(o, "tel", [&] { return c.telescope_id(); });
    opt(o, "machine", [&] { return c.machine_id(); });
    opt(o, "nbits", [&] { return c.nbits(); });
    opt(o, "az", [&] { return c.az_start(); });
    opt(o, "za", [&] { return c.za_start(); });
    o.i("dtype", c.data_type());
}

// cc NAME data mask fch1 foff tsamp tstart num src   (data/mask are arrays; shape gives T, nchans)
static coarse_channel make_cc(In &in) {
    auto data = at(st.A, in.s()), mask = at(st.A, in.s());
    double fch1 = in.d(), foff = in.d(), tsamp = in.d(), tstart = in.d();
    int64_t num = in.i();
    auto    src = in.str();
    return coarse_channel(data, mask, fch1, foff, 20, 32, data.size(1), data.size(0), 1, src, 11.5, 7.25, 6, tsamp, tstart, 1,
                          0.5, 0.25, num);
}
static reg a1("cc", [](In &in, Out &) {
    auto n = in.s();
    st.C.insert_or_assign(n, make_cc(in));
});
// ccmd NAME fch1 foff nchans nt nifs tsamp tstart num src raj dej tel : metadata-only coarse channel
static reg a1b("ccmd", [](In &in, Out &) {
    auto n = in.s();
    double fch1 = in.d(), foff = in.d();
    int64_t nchans = in.i(), nt = in.i(), nifs = in.i();
    double tsamp = in.d(), tstart = in.d();
    int64_t num = in.i();
    auto src = in.str();
    double raj = in.d(), dej = in.d();
    int64_t tel = in.i();
    st.C.insert_or_assign(n, coarse_channel(fch1, foff, 20, 32, nchans, nt, nifs, src, dej, raj, tel, tsamp, tstart, 1, 0., 0., num));
});
static reg a2("ccget", [](In &in, Out &o) {
    auto &c = at(st.C, in.s());
    o.raw("data", jarray(c.data()));
    o.raw("mask", jarray(c.mask()));
});
static reg a2m("ccmask", [](In &in, Out &o) { o.raw("mask", jarray(at(st.C, in.s()).mask())); });
static reg a2d("ccdata", [](In &in, Out &o) { o.raw("data", jarray(at(st.C, in.s()).data())); });
static reg a2b("ccinfo", [](In &in, Out &o) { jcc_md(o, at(st.C, in.s())); });
static reg a3("cchandle", [](In &in, Out &) {
    auto d = in.s();
    auto c = at(st.C, in.s());
    st.C.insert_or_assign(d, c);
});
static reg a4("ccsethits", [](In &in, Out &) {
    auto &c = at(st.C, in.s());
    c.set_hits(parse_hits(in));
});
static reg a4b("ccsethitsfn", [](In &in, Out &) { // hits found when they are first asked for
    auto &c = at(st.C, in.s());
    auto  h = parse_hits(in);
    c.set_hits([h]() { return h; });
});
static reg a5("cchits", [](In &in, Out &o) {
    auto &c = at(st.C, in.s());
    o.boolean("has", c.has_hits());
    o.raw("hits", jhits(c.hits()));
});
static reg a6("ccsetnoise", [](In &in, Out &) { // noise floor and power given
    auto &c = at(st.C, in.s());
    noise_stats ns;
    ns.set_noise_floor(bland::ndarray({1}, float(in_units(in.d()))));
    ns.set_noise_power(bland::ndarray({1}, float(in_units(in.d()))));
    c.set_noise_estimate(ns);
});
static reg a7("ccnoise", [](In &in, Out &o) {
    auto ns = at(st.C, in.s()).noise_estimate();
    o.num("floor", of_units(ns.noise_floor())), o.num("power", of_units(ns.noise_power())), o.num("amp", ns.noise_amplitude());
});

// ---- flaggers, estimators, preprocessing, search: one implementation per level ---------------
// options that have the value they should have by default are left alone
template <class T>
static void unless(T &option, T value, T dflt) {
    if (value != dflt) option = value;
}
static integrate_drifts_options parse_drift(In &in) {
    integrate_drifts_options d;
    unless(d.desmear, bool(in.i()), true), d.low_rate = in.i(), d.high_rate = in.i(), unless(d.rate_step_size, int64_t(in.i()), int64_t(1));
    return d;
}
static hit_search_options parse_hs(In &in) {
    hit_search_options h;
    unless(h.method, in.s() == "lm" ? hit_search_methods::LOCAL_MAXIMA : hit_search_methods::CONNECTED_COMPONENTS, hit_search_methods::CONNECTED_COMPONENTS);
    unless(h.snr_threshold, float(in.d()), 10.f), unless(h.neighbor_l1_dist, int(in.i()), 7);
    return h;
}
static filter_options parse_filter(In &in) {
    filter_options f;
    unless(f.filter_zero_drift, bool(in.i()), true);
    return f;
}
template <class X>
static X stage(const std::string &op, X x, In &in) {
    if (op == "rolloff") return flag_filter_rolloff(x, float(in.d()));
    if (op == "sk") {
        float lo = in.d(), hi = in.d(), d = in.d();
        return d == 2 ? flag_spectral_kurtosis(x, lo, hi) : flag_spectral_kurtosis(x, lo, hi, d);
    }
    if (op == "mag") return flag_magnitude(x, float(in_units(in.d())));
    if (op == "magauto") return flag_magnitude(x);
    if (op == "sclip") {
        int it = in.i();
        float lo = in.d(), hi = in.d();
        return hi != 4 ? flag_sigmaclip(x, it, lo, hi) : lo != 3 ? flag_sigmaclip(x, it, lo) : it != 5 ? flag_sigmaclip(x, it) : flag_sigmaclip(x);
    }
    if (op == "normalize") return normalize(x);
    if (op == "equalize") return equalize_passband_filter(x, at(st.A, in.s()));
    if (op == "equalizefile") {
        auto p = in.s(), dt = in.s();
        if (dt == "f") return equalize_passband_filter(x, p);
        return equalize_passband_filter(x, p, parse_dtype(dt));
    }
    if (op == "dedrift") return integrate_drifts(x, parse_drift(in));
    if (op == "filter") return filter_hits(x, parse_filter(in));
    if constexpr (!std::is_same_v<X, coarse_channel>) {
        if (op == "noise") {
            noise_power_estimate_options o;
            o.estimator_method = noise_power_estimator::STDDEV, unless(o.masked_estimate, bool(in.i()), true);
            return estimate_noise_power(x, o);
        }
        if (op == "hits") return hit_search(x, parse_hs(in));
    } else {
        if (op == "noise") {
            noise_power_estimate_options o;
            o.estimator_method = noise_power_estimator::STDDEV, unless(o.masked_estimate, bool(in.i()), true);
            x.set_noise_estimate(estimate_noise_power(x, o));
            return x;
        }
        if (op == "hits") {
            x.set_hits(hit_search(x, parse_hs(in)));
            return x;
        }
    }
    throw bad_command("stage " + op);
}
// stage LEVEL OP DST SRC args...
static reg b1("stage", [](In &in, Out &) {
    auto lvl = in.s(), op = in.s(), d = in.s(), s = in.s();
    if (lvl == "c") {
        auto r = stage(op, at(st.C, s), in);
        st.C.insert_or_assign(d, r);
    } else if (lvl == "s") st.S.insert_or_assign(d, stage(op, at(st.S, s), in));
    else if (lvl == "t") st.T.insert_or_assign(d, stage(op, at(st.T, s), in));
    else if (lvl == "k") st.K.insert_or_assign(d, stage(op, at(st.K, s), in));
    else throw bad_command("level");
});
// array-level flaggers and estimators
static reg b2("aflag", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto a  = at(st.A, in.s());
    if (op == "mag") st.A.insert_or_assign(d, flag_magnitude(a, float(in_units(in.d()))));
    else if (op == "sk") {
        int64_t N = in.i(), M = in.i();
        float dd = in.d(), lo = in.d(), hi = in.d();
        st.A.insert_or_assign(d, hi != 50 ? flag_spectral_kurtosis(a, N, M, dd, lo, hi) : lo != 0.25f ? flag_spectral_kurtosis(a, N, M, dd, lo) : dd != 2 ? flag_spectral_kurtosis(a, N, M, dd) : flag_spectral_kurtosis(a, N, M));
    } else if (op == "sclip") {
        int it = in.i();
        float lo = in.d(), hi = in.d();
        st.A.insert_or_assign(d, hi != 4 ? flag_sigmaclip(a, it, lo, hi) : lo != 3 ? flag_sigmaclip(a, it, lo) : it != 5 ? flag_sigmaclip(a, it) : flag_sigmaclip(a));
    } else throw bad_command("aflag");
});
static reg b3("anoise", [](In &in, Out &o) {
    auto a = at(st.A, in.s());
    noise_power_estimate_options op;
    op.estimator_method = noise_power_estimator::STDDEV, unless(op.masked_estimate, bool(in.i()), true);
    auto ns = estimate_noise_power(a, op);
    o.num("floor", of_units(ns.noise_floor())), o.num("power", of_units(ns.noise_power()));
});
static reg b3c("ask", [](In &in, Out &o) {
    auto a = at(st.A, in.s());
    int N = in.i(), M = in.i();
    float d = in.d();
    o.raw("sk", jarray(d == 2 ? estimate_spectral_kurtosis(a, N, M) : estimate_spectral_kurtosis(a, N, M, d)));
});
static reg b3b("ccsk", [](In &in, Out &o) {
    auto &c = at(st.C, in.s());
    float d = in.d();
    o.raw("sk", jarray(d == 2 ? estimate_spectral_kurtosis(c) : estimate_spectral_kurtosis(c, d)));
});

// ---- drift plane ---------------------------------------------------------------------------
static void jplane(Out &o, frequency_drift_plane &p, bool with_rfi) {
    o.i("steps", p.integration_steps());
    auto a = p.integrated_drift_plane();
    o.raw("plane", jarray(a));
    std::string r = "[";
    bool f = true;
    for (auto &x : p.drift_rate_info()) {
        Out e;
        e.i("idx", x.index_in_plane), e.num("slope", x.drift_rate_slope), e.num("hz", x.drift_rate_Hz_per_sec);
        e.i("span", x.drift_channels_span), e.i("smear", x.desmeared_bins);
        r += (f ? "{" : ",{") + e.b + "}";
        f = false;
    }
    o.raw("rates", r + "]");
    if (with_rfi) {
        auto rfi = p.integrated_rfi();
        o.raw("lo", jarray(rfi.low_spectral_kurtosis));
        o.raw("hi", jarray(rfi.high_spectral_kurtosis));
        o.raw("roll", jarray(rfi.filter_rolloff));
    }
}
static reg p1("ccplane", [](In &in, Out &o) {
    auto &c = at(st.C, in.s());
    auto  p = c.integrated_drift_plane();
    jplane(o, p, in.i());
});
// counts given as one type of number, in the type planes hold them in
static bland::ndarray counts(const bland::ndarray &a, bland::ndarray::datatype t) {
    if (a.dtype().code == t.code && a.dtype().bits == t.bits) return a;
    bland::ndarray r(a.shape(), 0, t, a.device());
    return bland::copy(a, r);
}
// plane NAME array lo hi roll steps nrates (slope hz span smear)* : a hand-built drift plane
static reg p2("plane", [](In &in, Out &) {
    auto n = in.s();
    auto a = at(st.A, in.s());
    integrated_flags fl(a.size(0), a.size(1));
    fl.low_spectral_kurtosis  = counts(at(st.A, in.s()), fl.low_spectral_kurtosis.dtype());
    fl.high_spectral_kurtosis = counts(at(st.A, in.s()), fl.high_spectral_kurtosis.dtype());
    fl.filter_rolloff         = counts(at(st.A, in.s()), fl.filter_rolloff.dtype());
    int64_t steps = in.i();
    int     nr    = in.i();
    std::vector<frequency_drift_plane::drift_rate> v;
    for (int k = 0; k < nr; ++k) {
        frequency_drift_plane::drift_rate r;
        r.index_in_plane = k;
        r.drift_rate_slope = in.d(), r.drift_rate_Hz_per_sec = in.d(), r.drift_channels_span = in.i(), r.desmeared_bins = in.i();
        v.push_back(r);
    }
    st.P[n] = std::make_shared<frequency_drift_plane>(bland::ndarray_deferred(a), fl, steps, v);
});
static reg p3("ccsetplane", [](In &in, Out &) {
    auto &c = at(st.C, in.s());
    c.set_integrated_drift_plane(*at(st.P, in.s()));
});
static std::string jproto(const std::vector<protohit> &ps) {
    std::string b = "[";
    bool f = true;
    for (auto &p : ps) {
        Out o;
        o.i("md", p.index_max.drift_index), o.i("mc", p.index_max.frequency_channel);
        o.i("cd", p.index_center.drift_index), o.i("cc", p.index_center.frequency_channel);
        o.num("snr", p.snr), o.num("max", of_units(p.max_integration)), o.num("noise", of_units(p.desmeared_noise)), o.i("binw", p.binwidth);
        std::vector<int64_t> l;
        for (auto &x : p.locations) l.push_back(x.drift_index), l.push_back(x.frequency_channel);
        o.iv("loc", l);
        auto get = [&](flag_values v) { auto it = p.rfi_counts.find(v); return it == p.rfi_counts.end() ? -1 : int(it->second); };
        o.i("lo", get(flag_values::low_spectral_kurtosis)), o.i("hi", get(flag_values::high_spectral_kurtosis));
        o.i("roll", get(flag_values::filter_rolloff));
        b += (f ? "{" : ",{") + o.b + "}";
        f = false;
    }
    return b + "]";
}
// proto PLANE floor power method thr dist
static reg p4("proto", [](In &in, Out &o) {
    auto p = at(st.P, in.s());
    noise_stats ns;
    ns.set_noise_floor(bland::ndarray({1}, float(in_units(in.d()))));
    ns.set_noise_power(bland::ndarray({1}, float(in_units(in.d()))));
    o.raw("hits", jproto(protohit_search(*p, ns, parse_hs(in))));
});
static reg p5("components", [](In &in, Out &o) { // binary mask components, neighbourhood as coordinate list
    auto a = at(st.A, in.s());
    auto n = in.iv();
    std::vector<bland::nd_coords> nb;
    for (size_t k = 0; k + 1 < n.size(); k += 2) nb.push_back({n[k], n[k + 1]});
    o.raw("hits", jproto(find_components_in_binary_mask(a, nb)));
});
static reg p6("hitsearch", [](In &in, Out &o) {
    auto &c = at(st.C, in.s());
    o.raw("hits", jhits(hit_search(c, parse_hs(in))));
});

// ---- hits ----------------------------------------------------------------------------------
static reg h1("hlist", [](In &in, Out &) {
    auto n = in.s();
    st.H[n] = parse_hits(in);
});
static reg h2("hfilter", [](In &in, Out &o) {
    auto l = at(st.H, in.s());
    o.raw("hits", jhits(filter_hits(l, parse_filter(in))));
});
// hstate DST SRC : hits remade from their saved states
static reg h2b("hstate", [](In &in, Out &) {
    auto d = in.s();
    std::list<hit> l;
    for (auto &h : at(st.H, in.s())) {
        l.emplace_back();
        l.back().set_state(h.get_state());
    }
    st.H[d] = l;
});
static reg h3("hget", [](In &in, Out &o) { o.raw("hits", jhits(at(st.H, in.s()))); });

// ---- scans ---------------------------------------------------------------------------------
static reg s1("scanmap", [](In &in, Out &) { // scan from coarse channels
    auto n = in.s();
    int  k = in.i();
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (int i = 0; i < k; ++i) m[i] = as_ptr(at(st.C, in.s()));
    st.S.insert_or_assign(n, scan(m));
});
static reg s2("scanh5", [](In &in, Out &) {
    auto n = in.s(), path = in.s();
    int  fine = in.i();
    st.S.insert_or_assign(n, scan(path, fine));
});
static void jscan(Out &o, scan &s) {
    o.num("fch1", s.fch1()), o.num("foff", s.foff()), o.i("nchans", s.nchans());
    o.i("ncoarse", s.get_number_coarse_channels()), o.i("nt", s.ntsteps());
    o.num("tsamp", s.tsamp()), o.num("tstart", s.tstart()), o.num("dur", s.tduration_secs());
    o.str("src", s.source_name());
    opt(o, "raj", [&] { return s.src_raj(); });
    opt(o, "dej", [&] { return s.src_dej(); });
    opt(o, "tel", [&] { return s.telescope_id(); });
    opt(o, "machine", [&] { return s.machine_id(); });
    opt(o, "az", [&] { return s.az_start(); });
    opt(o, "za", [&] { return s.za_start(); });
}
static reg s3("scaninfo", [](In &in, Out &o) { jscan(o, at(st.S, in.s())); });
static reg s3b("scaninfo2", [](In &in, Out &o) {
    auto &s = at(st.S, in.s());
    o.i("nifs", s.nifs()), o.i("nbits", s.nbits()), o.i("dtype", s.data_type());
    o.str("path", s.get_file_path());
});
static void jread(Out &o, scan &s, int idx, bool peek, bool data) {
    st.C.erase("last");
    auto c = idx == 0 ? peek ? s.peak_coarse_channel() : s.read_coarse_channel() : peek ? s.peak_coarse_channel(idx) : s.read_coarse_channel(idx);
    if (!c) {
        o.boolean("null", true);
        return;
    }
    o.boolean("null", false);
    jcc_md(o, *c);
    if (data) {
        o.raw("data", jarray(c->data()));
        o.raw("mask", jarray(c->mask()));
    }
    st.C.insert_or_assign("last", *c);
}
static reg s4("scanread", [](In &in, Out &o) {
    st.C.erase("last");
    auto &s = at(st.S, in.s());
    int   i = in.i();
    jread(o, s, i, false, in.i());
});
static reg s5("scanpeek", [](In &in, Out &o) {
    st.C.erase("last");
    auto &s = at(st.S, in.s());
    int   i = in.i();
    jread(o, s, i, true, in.i());
});
static reg s6("scanslice", [](In &in, Out &) {
    auto d = in.s();
    auto &s = at(st.S, in.s());
    int64_t start = in.i(), count = in.i();
    auto r = count != 1 ? s.slice_scan_channels(start, count) : start != 0 ? s.slice_scan_channels(start) : s.slice_scan_channels();
    st.S.insert_or_assign(d, r);
});
static reg s7("scanhandle", [](In &in, Out &) {
    auto d = in.s();
    auto s = at(st.S, in.s());
    st.S.insert_or_assign(d, s);
});
static reg s7b("scandrop", [](In &in, Out &) { st.S.erase(in.s()); });
static reg s8("scanfreq", [](In &in, Out &o) {
    auto &s = at(st.S, in.s());
    o.i("cc", s.get_coarse_channel_with_frequency(in.d()));
});
// the coarse channel of the frequency half a fine channel above fine channel c of the scan
static reg s8b("scanfreqrel", [](In &in, Out &o) {
    auto &s = at(st.S, in.s());
    o.i("cc", s.get_coarse_channel_with_frequency(s.fch1() + s.foff() * (in.d() + 0.5)));
});
static reg s9("scanhits", [](In &in, Out &o) { o.raw("hits", jhits(at(st.S, in.s()).hits())); });
// scantf SCAN kind arg tag : logging transforms; kinds: mul (data*arg), add (data+arg), maskadd (mask+arg), log,
//                            fillin (overwrites the data array in place), maskfill (overwrites the mask array in place)
static reg s10("scantf", [](In &in, Out &) {
    auto &s = at(st.S, in.s());
    auto  kind = in.s();
    double arg = in.d();
    auto  tag = in.s();
    auto  log = st.log;
    s.add_coarse_channel_transform([kind, arg, tag, log](coarse_channel c) {
        log->push_back(tag + ":" + std::to_string(c._coarse_channel_number));
        if (kind == "mul") c.set_data(bland::ndarray(c.data()) * float(arg));
        else if (kind == "add") c.set_data(bland::ndarray(c.data()) + float(arg));
        else if (kind == "maskadd") c.set_mask(bland::ndarray(c.mask()) + uint8_t(arg));
        return c;
    });
});
// scanhitsby SCAN TAG : channel number i gets the hits of list TAG<i> when they are first asked for
static reg s10b("scanhitsby", [](In &in, Out &) {
    auto &s = at(st.S, in.s());
    auto  tag = in.s();
    std::map<std::string, std::list<hit>> lists;
    for (auto &kv : st.H)
        if (kv.first.rfind(tag, 0) == 0) lists[kv.first] = kv.second;
    s.add_coarse_channel_transform([lists, tag](coarse_channel c) {
        auto l = lists.at(tag + std::to_string(c._coarse_channel_number));
        c.set_hits([l]() { return l; });
        return c;
    });
});
static reg s11("log", [](In &, Out &o) {
    std::string b = "[";
    for (size_t k = 0; k < st.log->size(); ++k) b += (k ? "," : "") + jstr((*st.log)[k]);
    o.raw("log", b + "]");
    st.log->clear();
});
static reg s12("scandevice", [](In &in, Out &) { at(st.S, in.s()).set_device("cpu"); });
static reg s12b("scanpush", [](In &in, Out &) { at(st.S, in.s()).push_device(); });

// ---- observation targets and cadences ------------------------------------------------------
static reg t1("target", [](In &in, Out &) {
    auto n = in.s();
    int  k = in.i();
    std::vector<scan> v;
    for (int i = 0; i < k; ++i) v.push_back(at(st.S, in.s()));
    st.T.insert_or_assign(n, observation_target(v));
});
static reg t1b("targeth5", [](In &in, Out &) {
    auto n = in.s();
    int fine = in.i(), k = in.i();
    std::vector<std::string> v;
    for (int i = 0; i < k; ++i) v.push_back(in.s());
    st.T.insert_or_assign(n, observation_target(v, fine));
});
static reg t2("cadence", [](In &in, Out &) {
    auto n = in.s();
    int  k = in.i();
    std::vector<observation_target> v;
    for (int i = 0; i < k; ++i) v.push_back(at(st.T, in.s()));
    st.K.insert_or_assign(n, cadence(v));
});
static reg t2b("cadenceh5", [](In &in, Out &) {
    auto n = in.s();
    int fine = in.i(), k = in.i();
    std::vector<std::vector<std::string>> v(k);
    for (int i = 0; i < k; ++i) {
        int m = in.i();
        for (int j = 0; j < m; ++j) v[i].push_back(in.s());
    }
    st.K.insert_or_assign(n, cadence(v, fine));
});
static reg t3("tvalid", [](In &in, Out &o) { o.boolean("v", at(st.T, in.s()).validate_scan_consistency()); });
static reg t4("kvalid", [](In &in, Out &o) { o.boolean("v", at(st.K, in.s()).validate_scan_consistency()); });
static reg t5("tncoarse", [](In &in, Out &o) { o.i("v", at(st.T, in.s()).get_number_coarse_channels()); });
static reg t6("kncoarse", [](In &in, Out &o) { o.i("v", at(st.K, in.s()).get_number_coarse_channels()); });
static reg t7("tfreq", [](In &in, Out &o) {
    auto &t = at(st.T, in.s());
    o.i("v", t.get_coarse_channel_with_frequency(in.d()));
});
static reg t8("kfreq", [](In &in, Out &o) {
    auto &t = at(st.K, in.s());
    o.i("v", t.get_coarse_channel_with_frequency(in.d()));
});
// as scanfreqrel, counted from the first scan there is
static reg t7r("tfreqrel", [](In &in, Out &o) {
    auto &t = at(st.T, in.s());
    double c = in.d() + 0.5;
    auto &s = t._scans.at(0);
    o.i("v", t.get_coarse_channel_with_frequency(s.fch1() + s.foff() * c));
});
static reg t8r("kfreqrel", [](In &in, Out &o) {
    auto &k = at(st.K, in.s());
    double c = in.d() + 0.5;
    for (auto &t : k._observations) {
        if (t._scans.empty()) continue;
        auto &s = t._scans[0];
        o.i("v", k.get_coarse_channel_with_frequency(s.fch1() + s.foff() * c));
        return;
    }
    throw bad_command("empty cadence");
});
static reg t9("tslice", [](In &in, Out &) {
    auto d = in.s();
    auto &t = at(st.T, in.s());
    int64_t start = in.i(), count = in.i();
    auto r = count != 1 ? t.slice_observation_channels(start, count) : start != 0 ? t.slice_observation_channels(start) : t.slice_observation_channels();
    st.T.insert_or_assign(d, r);
});
static reg t10("kslice", [](In &in, Out &) {
    auto d = in.s();
    auto &t = at(st.K, in.s());
    int64_t start = in.i(), count = in.i();
    auto r = count != 1 ? t.slice_cadence_channels(start, count) : start != 0 ? t.slice_cadence_channels(start) : t.slice_cadence_channels();
    st.K.insert_or_assign(d, r);
});
static reg t11("tname", [](In &in, Out &o) {
    auto &t = at(st.T, in.s());
    o.str("name", t._target_name), o.i("n", t._scans.size());
});
static reg t12("kcount", [](In &in, Out &o) {
    auto &k = at(st.K, in.s());
    std::vector<int64_t> v;
    for (auto &t : k._observations) v.push_back(t._scans.size());
    o.iv("n", v);
});
static reg t13("tscan", [](In &in, Out &) { // extract a scan of a target
    auto d = in.s();
    st.S.erase(d);
    auto &t = at(st.T, in.s());
    int   i = in.i();
    st.S.insert_or_assign(d, t._scans.at(i));
});
static reg t14("ktarget", [](In &in, Out &) {
    auto d = in.s();
    st.T.erase(d);
    auto &k = at(st.K, in.s());
    int   i = in.i();
    st.T.insert_or_assign(d, k._observations.at(i));
});

// ---- events --------------------------------------------------------------------------------
static std::string jevents(const std::vector<event> &ev) {
    std::string b = "[";
    bool f = true;
    for (auto &e : ev) {
        Out o;
        o.raw("hits", jhits(e.hits));
        o.num("freq", e.starting_frequency_Hz), o.num("power", e.average_power), o.num("bw", e.average_bandwidth);
        o.num("snr", e.average_snr), o.num("drift", e.average_drift_rate_Hz_per_sec);
        o.num("t0", e.event_start_seconds), o.num("t1", e.event_end_seconds);
        b += (f ? "{" : ",{") + o.b + "}";
        f = false;
    }
    return b + "]";
}
static reg v1("events", [](In &in, Out &o) {
    auto n  = in.s();
    auto ev = event_search(at(st.K, in.s()));
    st.E[n] = ev;
    o.raw("events", jevents(ev));
});
static reg v2("evlist", [](In &in, Out &) { // an event list built by hand: counts of hits
    auto n = in.s();
    int  k = in.i();
    std::vector<event> v(k);
    for (auto &e : v) e.hits = parse_hits(in);
    st.E[n] = v;
});
static reg v3("evget", [](In &in, Out &o) { o.raw("events", jevents(at(st.E, in.s()))); });

// ---- persistence ---------------------------------------------------------------------------
// freshdir PATH : an empty directory (only plain files directly in it are removed)
static reg f00("freshdir", [](In &in, Out &) {
    auto p = in.s();
    std::filesystem::create_directories(p);
    for (auto &e : std::filesystem::directory_iterator(p))
        if (e.is_regular_file()) std::filesystem::remove(e.path());
});
static std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    if (!f) throw std::runtime_error("no file " + p);
    std::string t(std::istreambuf_iterator<char>(f), {});
    for (auto &c : t)
        if (c & 0x80) c = '?';
    return t;
}
static reg f01("slurp", [](In &in, Out &o) { o.str("text", slurp(in.s())); });
static reg f02("lsdir", [](In &in, Out &o) {
    std::vector<std::string> v;
    for (auto &e : std::filesystem::directory_iterator(in.s())) v.push_back(e.path().filename().string());
    std::sort(v.begin(), v.end());
    std::string b = "[";
    for (size_t k = 0; k < v.size(); ++k) b += (k ? "," : "") + jstr(v[k]);
    o.raw("names", b + "]");
});
// run DIR PROGRAM n args... : runs a program of the build in DIR; its exit status and standard output
static reg f03("run", [](In &in, Out &o) {
    auto dir = in.s(), prog = in.s();
    auto exe = std::filesystem::canonical("/proc/self/exe").parent_path() / "bliss" / prog;
    std::vector<std::string> args{exe.string()};
    int n = in.i();
    for (int i = 0; i < n; ++i) args.push_back(in.str());
    auto out = dir + "/.stdout";
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    auto pid = fork();
    if (pid == 0) {
        if (chdir(dir.c_str())) _exit(126);
        int fd = open(".stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), null = open("/dev/null", O_RDWR);
        dup2(null, 0), dup2(fd, 1), dup2(null, 2);
        setenv("ASAN_OPTIONS", "detect_leaks=0", 1);
        execv(argv[0], argv.data());
        _exit(127);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    auto text = slurp(out);
    unlink(out.c_str());
    o.i("rc", WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status));
    o.str("out", text);
});
static reg f0("unlink", [](In &in, Out &) { unlink(in.s().c_str()); });
static reg f1("save", [](In &in, Out &) {
    auto kind = in.s(), n = in.s(), path = in.s();
    if (kind == "hits") write_hits_to_capnp_file(at(st.H, n), path);
    else if (kind == "vhits") {
        auto &l = at(st.H, n);
        write_hits_to_capnp_file(std::vector<hit>(l.begin(), l.end()), path);
    } else if (kind == "cc") write_coarse_channel_hits_to_capnp_file(at(st.C, n), path);
    else if (kind == "scan") write_scan_hits_to_capnp_file(at(st.S, n), path);
    else if (kind == "target") write_observation_target_hits_to_capnp_files(at(st.T, n), path);
    else if (kind == "cadence") write_cadence_hits_to_capnp_files(at(st.K, n), path);
    else if (kind == "events") write_events_to_file(at(st.E, n), path);
    else if (kind == "dat") write_scan_hits_to_dat_file(at(st.S, n), path);
    else throw bad_command("kind");
});
static reg f2("load", [](In &in, Out &) {
    auto kind = in.s(), n = in.s(), path = in.s();
    if (kind == "hits") st.H[n] = read_hits_from_capnp_file(path);
    else if (kind == "cc") st.C.insert_or_assign(n, read_coarse_channel_hits_from_capnp_file(path));
    else if (kind == "scan") st.S.insert_or_assign(n, read_scan_hits_from_capnp_file(path));
    else if (kind == "target") st.T.insert_or_assign(n, read_observation_target_hits_from_capnp_files(path));
    else if (kind == "cadence") st.K.insert_or_assign(n, read_cadence_hits_from_capnp_files(path));
    else if (kind == "events") st.E[n] = read_events_from_file(path);
    else throw bad_command("kind");
});
static reg f3("savescan", [](In &in, Out &) { // format dispatch: savescan SCAN PATH FORMAT
    auto n = in.s(), path = in.s();
    write_scan_hits_to_file(at(st.S, n), path, in.str());
});
static reg f4("loadscan", [](In &in, Out &) {
    auto n = in.s(), path = in.s();
    st.S.insert_or_assign(n, read_scan_hits_from_file(path, in.str()));
});
static reg f4b("loadhits", [](In &in, Out &) {
    auto n = in.s(), path = in.s();
    st.H[n] = read_hits_from_file(path, in.str());
});

// ---- HDF5 filterbank files -----------------------------------------------------------------
// h5w PATH nt nf fch1 foff tsamp tstart src raj dej tel  optional-attribute mask  dims  data...
//   opts is a comma separated list among nchans,nifs,nbits,machine,dtype,az,za,class,fixedsrc,floatattr,int32
static void h5_write(In &in, std::vector<double> (*values)(In &, int64_t, int64_t)) {
    auto path = in.s();
    int64_t nt = in.i(), nf = in.i();
    double fch1 = in.d(), foff = in.d(), tsamp = in.d(), tstart = in.d();
    auto src = in.str();
    double raj = in.d(), dej = in.d();
    int64_t tel = in.i();
    auto opts = "," + in.s() + ",";
    auto vals = values(in, nt, nf);
    auto has = [&](const char *k) { return opts.find("," + std::string(k) + ",") != std::string::npos; };
    H5::H5File file(path, H5F_ACC_TRUNC);
    H5::StrType vstr(H5::PredType::C_S1, H5T_VARIABLE);
    H5::DataSpace scalar(H5S_SCALAR);
    if (has("class")) {
        file.createAttribute("CLASS", vstr, scalar).write(vstr, std::string("FILTERBANK"));
        file.createAttribute("VERSION", vstr, scalar).write(vstr, std::string("1.0"));
    }
    hsize_t dims[3] = {hsize_t(nt), 1, hsize_t(nf)};
    auto ds = file.createDataSet("data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(3, dims));
    std::vector<float> f(vals.begin(), vals.end());
    // without values the data set is left unwritten: it reads as zeros and takes no room
    if (!f.empty() && int64_t(f.size()) != nt * nf) throw bad_command("h5 size");
    if (!f.empty()) ds.write(f.data(), H5::PredType::NATIVE_FLOAT);
    auto num = [&](const char *k, double v) {
        if (has("floatattr")) {
            float x = v;
            ds.createAttribute(k, H5::PredType::NATIVE_FLOAT, scalar).write(H5::PredType::NATIVE_FLOAT, &x);
        } else
            ds.createAttribute(k, H5::PredType::NATIVE_DOUBLE, scalar).write(H5::PredType::NATIVE_DOUBLE, &v);
    };
    auto integer = [&](const char *k, int64_t v) {
        if (has("int32")) {
            int32_t x = v;
            ds.createAttribute(k, H5::PredType::NATIVE_INT32, scalar).write(H5::PredType::NATIVE_INT32, &x);
        } else
            ds.createAttribute(k, H5::PredType::NATIVE_INT64, scalar).write(H5::PredType::NATIVE_INT64, &v);
    };
    num("fch1", fch1), num("foff", foff), num("tsamp", tsamp), num("tstart", tstart), num("src_raj", raj), num("src_dej", dej);
    integer("telescope_id", tel);
    if (has("fixedsrc")) {
        H5::StrType fs(H5::PredType::C_S1, src.size());
        ds.createAttribute("source_name", fs, scalar).write(fs, src.c_str());
    } else
        ds.createAttribute("source_name", vstr, scalar).write(vstr, src);
    if (has("nchans")) integer("nchans", nf);
    if (has("nifs")) integer("nifs", 1);
    if (has("nbits")) integer("nbits", 32);
    if (has("machine")) integer("machine_id", 20);
    if (has("dtype")) integer("data_type", 1);
    if (has("az")) num("az_start", 1.5);
    if (has("za")) num("za_start", 2.5);
    hsize_t three[1] = {3};
    H5::DataSpace l(1, three);
    const char *labels[3] = {"time", "feed_id", "frequency"};
    if (has("swap")) labels[0] = "frequency", labels[2] = "time"; // some files have these two the wrong way round
    ds.createAttribute("DIMENSION_LABELS", vstr, l).write(vstr, labels);
}
static reg g1("h5w", [](In &in, Out &) { h5_write(in, [](In &in, int64_t, int64_t) { return in.dv(); }); });
// h5tones: as h5w, but instead of data  floor ripple seed power (t x)... : the floor, more or less the ripple at random, and
//          that power on top in the samples listed
static reg g1b("h5tones", [](In &in, Out &) {
    h5_write(in, [](In &in, int64_t nt, int64_t nf) {
        double floor = in.d(), ripple = in.d();
        uint64_t x = in.i() * 2654435761u + 88172645463325252u;
        double power = in.d();
        std::vector<double> v(nt * nf);
        for (auto &e : v) {
            x ^= x << 13, x ^= x >> 7, x ^= x << 17;
            e = floor + ((x >> 33) % 2 ? ripple : -ripple);
        }
        auto at = in.iv();
        for (size_t k = 0; k + 1 < at.size(); k += 2) v.at(at[k] * nf + at[k + 1]) += power;
        return v;
    });
});
static reg g2("h5read", [](In &in, Out &o) { // h5read PATH offset count
    h5_filterbank_file f(in.s());
    auto off = in.iv(), cnt = in.iv();
    o.raw("data", jarray(f.read_data(off, cnt)));
    o.raw("mask", jarray(!cnt.empty() ? f.read_mask(off, cnt) : !off.empty() ? f.read_mask(off) : f.read_mask()));
    o.iv("shape", f.get_data_shape());
});
static reg z2("firdes", [](In &in, Out &) {
    auto d = in.s();
    int  taps = in.i();
    st.A.insert_or_assign(d, bliss::firdes(taps, in.d(), "hamming"));
});
static reg z3("ccresp", [](In &in, Out &) {
    auto d = in.s();
    int  fine = in.i(), coarse = in.i(), per = in.i();
    st.A.insert_or_assign(d, bliss::gen_coarse_channel_response(fine, coarse, per));
});
