#include "h.hpp"
#include <cmath>
#include <cstdint>
#include <cstring>
using namespace bland;

ndarray::datatype parse_dtype(const std::string &s) {
    if (s == "f") return ndarray::datatype::float32;
    if (s == "d") return ndarray::datatype::float64;
    if (s == "b") return ndarray::datatype::uint8;
    if (s == "B") return ndarray::datatype::int8;
    if (s == "h") return ndarray::datatype::int16;
    if (s == "H") return ndarray::datatype::uint16;
    if (s == "i") return ndarray::datatype::int32;
    if (s == "u") return ndarray::datatype::uint32;
    if (s == "l") return ndarray::datatype::int64;
    if (s == "L") return ndarray::datatype::uint64;
    throw bad_command("dtype " + s);
}
static std::string dtype_code(ndarray::datatype t) {
    for (auto c : {"f", "d", "b", "B", "h", "H", "i", "u", "l", "L"})
        if (parse_dtype(c) == t) return c;
    return "?";
}
template <class F>
static void with_type(const std::string &c, F f) {
    if (c == "f") f(float{});
    else if (c == "d") f(double{});
    else if (c == "b") f(uint8_t{});
    else if (c == "B") f(int8_t{});
    else if (c == "h") f(int16_t{});
    else if (c == "H") f(uint16_t{});
    else if (c == "i") f(int32_t{});
    else if (c == "u") f(uint32_t{});
    else if (c == "l") f(int64_t{});
    else if (c == "L") f(uint64_t{});
    else throw std::runtime_error("array of unknown type " + c);
}
// Reads every logical element through the public layout accessors
std::vector<double> logical_values(const ndarray &a) {
    auto shape = a.shape(), strides = a.strides(), offs = a.offsets();
    int64_t n = 1, base = 0;
    for (auto s : shape) n *= s;
    for (auto o : offs) base += o;
    std::vector<double> v;
    if (n <= 0) return v;
    if (n > 4000000) throw std::runtime_error("harness: implausible array size");
    v.reserve(n);
    with_type(dtype_code(a.dtype()), [&](auto t) {
        using T = decltype(t);
        auto                 p = a.data_ptr<T>();
        std::vector<int64_t> idx(shape.size(), 0);
        for (int64_t k = 0; k < n; ++k) {
            int64_t off = base;
            for (size_t d = 0; d < shape.size(); ++d) off += idx[d] * strides[d];
            v.push_back(std::is_same<T, float>::value ? std::ldexp(static_cast<double>(p[off]), -st.unit) : static_cast<double>(p[off]));
            for (int d = int(shape.size()) - 1; d >= 0; --d) {
                if (++idx[d] < shape[d]) break;
                idx[d] = 0;
            }
        }
    });
    return v;
}
std::string jarray(const ndarray &a) {
    int64_t off = 0;
    for (auto o : a.offsets()) off += o;
    return "{\"shape\":" + jiv(a.shape()) + ",\"strides\":" + jiv(a.strides()) + ",\"off\":" + std::to_string(off) +
           ",\"dt\":\"" + dtype_code(a.dtype()) + "\",\"v\":" + jdv(logical_values(a)) + "}";
}
static ndarray make(const std::string &dt, const std::vector<int64_t> &shape, const std::vector<double> &v) {
    ndarray a(shape, parse_dtype(dt));
    if (int64_t(v.size()) != a.numel()) throw std::runtime_error("array holds another number of elements");
    with_type(dt, [&](auto t) {
        using T = decltype(t);
        auto p  = a.data_ptr<T>();
        for (size_t i = 0; i < v.size(); ++i) p[i] = static_cast<T>(std::is_same<T, float>::value ? std::ldexp(v[i], st.unit) : v[i]);
    });
    return a;
}
static void put(const std::string &n, const ndarray &a) { st.A.insert_or_assign(n, a); }

// ---- creation, views ---------------------------------------------------------------------
static reg r0("unit", [](In &in, Out &) { st.unit = in.i(); });
static reg r1("new", [](In &in, Out &) {
    auto n = in.s(), dt = in.s();
    auto sh = in.iv();
    put(n, make(dt, sh, in.dv()));
});
static reg r1b("newfill", [](In &in, Out &) { // ndarray(dims, initial_val, dtype)
    auto n = in.s(), dt = in.s();
    auto sh = in.iv();
    auto vt = in.s();
    double v = in.d();
    if (vt == "f") put(n, ndarray(sh, float(v), parse_dtype(dt)));
    else if (vt == "i") put(n, ndarray(sh, int(v), parse_dtype(dt)));
    else throw bad_command("vt");
});
static reg r2("get", [](In &in, Out &o) { o.raw("a", jarray(at(st.A, in.s()))); });
static reg r2b("numel", [](In &in, Out &o) {
    auto &a = at(st.A, in.s());
    o.i("numel", a.numel()), o.i("ndim", a.ndim());
});
// every other way of reading an array: its counts, and one element at a time
static reg r2c("probe", [](In &in, Out &o) {
    auto &a = at(st.A, in.s());
    o.i("numel", a.numel()), o.i("ndim", a.ndim());
    std::vector<int64_t> sz;
    for (int64_t d = 0; d < a.ndim(); ++d) sz.push_back(a.size(d));
    o.iv("size", sz);
    o.raw("a", jarray(a));
    std::vector<double>  v;
    std::vector<int64_t> idx(sz.size(), 0);
    bool                 scalar_refused = false;
    with_type(dtype_code(a.dtype()), [&](auto t) {
        using T = decltype(t);
        for (int64_t k = 0; k < a.numel(); ++k) {
            v.push_back(double(a.scalarize<T>(idx)));
            for (int d = int(sz.size()) - 1; d >= 0; --d) {
                if (++idx[d] < sz[d]) break;
                idx[d] = 0;
            }
        }
        if (a.numel() == 1) v.push_back(double(a.scalarize<T>()));
        else if (a.numel() > 1) {
            try {
                a.scalarize<T>();
            } catch (const std::runtime_error &) { scalar_refused = true; }
        }
    });
    o.dv("at", v);
    o.boolean("refused", scalar_refused);
});
static reg r3("at", [](In &in, Out &o) {
    auto &a   = at(st.A, in.s());
    auto  idx = in.iv();
    o.num("v", a.scalarize<double>(idx));
});
static reg r3b("scalar", [](In &in, Out &o) { o.num("v", at(st.A, in.s()).scalarize<double>()); });
static reg r4("slice", [](In &in, Out &) {
    auto d = in.s();
    auto a = at(st.A, in.s());
    auto dim = in.i(), s = in.i(), e = in.i(), stp = in.i();
    put(d, bland::slice(a, dim, s, e, stp));
});
static reg r4b("slicem", [](In &in, Out &) { // multi-dimensional slice: 2 specs
    auto d = in.s();
    auto a = at(st.A, in.s());
    auto how = in.s(); // free function or member
    slice_spec x{in.i(), in.i(), in.i(), in.i()};
    x = slice_spec{x.dim, x.start, x.end, x.stride};
    if (!in.more()) {
        put(d, how == "m" ? a.slice(x) : bland::slice(a, x));
        return;
    }
    slice_spec y{in.i(), in.i(), in.i(), in.i()};
    put(d, how == "m" ? a.slice(x, y) : bland::slice(a, x, y));
});
static reg r5("squeeze", [](In &in, Out &) {
    auto d = in.s();
    auto a = at(st.A, in.s());
    put(d, a.squeeze(in.i()));
});
static reg r6("unsqueeze", [](In &in, Out &) {
    auto d = in.s();
    auto a = at(st.A, in.s());
    put(d, a.unsqueeze(in.i()));
});
static reg r6b("reshape", [](In &in, Out &) {
    auto d = in.s();
    auto a = at(st.A, in.s());
    put(d, a.reshape(in.iv()));
});
static reg r7("handle", [](In &in, Out &) {
    auto d = in.s();
    put(d, at(st.A, in.s()));
});
static reg r8("copy", [](In &in, Out &) {
    auto d = in.s();
    put(d, bland::copy(at(st.A, in.s())));
});
static reg r8c("copyto", [](In &in, Out &) { // copy with an output array
    auto d = in.s();
    auto &out = at(st.A, d);
    bland::copy(at(st.A, in.s()), out);
});
static reg r8b("todev", [](In &in, Out &) { // .to("cpu") of a cpu array
    auto d = in.s();
    put(d, at(st.A, in.s()).to("cpu"));
});
// what another library sees of an array: its shape and its elements
static std::pair<std::vector<int64_t>, std::vector<double>> told(const DLTensor &t) {
    std::vector<int64_t> shape(t.shape, t.shape + t.ndim), idx(t.ndim, 0);
    std::vector<double>  v;
    int64_t              n = 1;
    for (auto s : shape) n *= s;
    if (n < 0 || n > 100000) throw std::runtime_error("no such shape");
    with_type(dtype_code(t.dtype), [&](auto x) {
        using T = decltype(x);
        auto base = reinterpret_cast<const T *>(static_cast<const char *>(t.data) + t.byte_offset);
        for (int64_t k = 0; k < n; ++k) {
            int64_t at = 0;
            for (int i = 0; i < t.ndim; ++i) at += idx[i] * t.strides[i];
            v.push_back(double(base[at]));
            for (int i = t.ndim - 1; i >= 0; --i) {
                if (++idx[i] < shape[i]) break;
                idx[i] = 0;
            }
        }
    });
    return {shape, v};
}
static std::shared_ptr<void> kept(DLManagedTensor *m) {
    return std::shared_ptr<void>(m, [](void *p) {
        auto *t = static_cast<DLManagedTensor *>(p);
        t->deleter(t);
    });
}
// handed to another library and taken back: what that library sees, and the array made of it
static reg r8d("share", [](In &in, Out &o) {
    auto  d = in.s();
    auto *m = at(st.A, in.s()).get_managed_tensor();
    st.kept.push_back(kept(m));
    auto [shape, v] = told(m->dl_tensor);
    o.iv("shape", shape), o.dv("v", v);
    ndarray taken(*m);
    put(d, taken);
});
static reg r8f("lend", [](In &in, Out &) { st.lent.push_back(kept(at(st.A, in.s()).get_managed_tensor())); });
static reg r8g("giveback", [](In &in, Out &) { st.lent.at(in.i() - 1).reset(); });
static reg r8h("lent", [](In &, Out &o) {
    std::string all;
    for (auto &p : st.lent) {
        std::pair<std::vector<int64_t>, std::vector<double>> t;
        if (p) t = told(static_cast<DLManagedTensor *>(p.get())->dl_tensor);
        all += (all.empty() ? "" : ",") + ("{\"shape\":" + jiv(t.first) + ",\"v\":" + jdv(t.second) + "}");
    }
    o.raw("lent", "[" + all + "]");
});
// memory of another library, as the dlpack standard lets it be described: with or without strides, at an offset
static reg r8e("borrow", [](In &in, Out &) {
    auto n = in.s(), dt = in.s();
    auto sh  = in.iv();
    auto v   = in.dv();
    auto how = in.i();
    auto src = std::make_shared<ndarray>(make(dt, sh, v));
    auto mem = std::make_shared<std::vector<std::vector<int64_t>>>();
    mem->push_back(sh), mem->push_back(src->strides());
    int64_t bytes = src->dtype().bits / 8, skip = (how & 2) ? 3 * bytes : 0;
    auto    room  = std::make_shared<std::vector<char>>(skip + v.size() * bytes);
    std::memcpy(room->data() + skip, src->data_ptr<char>(), v.size() * bytes);
    DLManagedTensor m{};
    m.dl_tensor.data        = room->data();
    m.dl_tensor.byte_offset = skip;
    m.dl_tensor.device      = src->device();
    m.dl_tensor.dtype       = src->dtype();
    m.dl_tensor.ndim        = int(sh.size());
    m.dl_tensor.shape       = (*mem)[0].data();
    m.dl_tensor.strides     = (how & 1) ? nullptr : (*mem)[1].data();
    st.kept.push_back(mem), st.kept.push_back(room);
    ndarray taken(m);
    put(n, taken);
});
static reg r9("fill", [](In &in, Out &) {
    auto a  = at(st.A, in.s());
    auto vt = in.s();
    double v = in.d();
    if (vt == "f") bland::fill(a, float(v));
    else if (vt == "b") bland::fill(a, uint8_t(v));
    else if (vt == "i") bland::fill(a, int32_t(v));
    else if (vt == "u") bland::fill(a, uint32_t(v));
    else throw bad_command("vt");
});
static reg r10("sassign", [](In &in, Out &) { // slice(dst, ...) = src
    auto dst = at(st.A, in.s());
    auto src = at(st.A, in.s());
    auto dim = in.i(), s = in.i(), e = in.i(), stp = in.i();
    bland::slice(dst, dim, s, e, stp) = src;
});
static reg r10b("sassigns", [](In &in, Out &) { // slice(dst, ...) = slice(src, ...)
    auto dst = at(st.A, in.s());
    auto src = at(st.A, in.s());
    auto dim = in.i(), s = in.i(), e = in.i(), stp = in.i();
    auto sdim = in.i(), ss = in.i(), se = in.i(), sstp = in.i();
    bland::slice(dst, dim, s, e, stp) = bland::slice(src, sdim, ss, se, sstp);
});
static reg r11("drop", [](In &in, Out &) { st.A.erase(in.s()); });
static reg r12("arange", [](In &in, Out &) {
    auto n = in.s(), dt = in.s(), vt = in.s();
    double s = in.d(), e = in.d(), stp = in.d();
    if (vt == "f") put(n, bland::arange(float(s), float(e), float(stp), parse_dtype(dt)));
    else put(n, bland::arange(int(s), int(e), int(stp), parse_dtype(dt)));
});
static reg r13("linspace", [](In &in, Out &) {
    auto n = in.s(), dt = in.s();
    double s = in.d(), e = in.d();
    put(n, bland::linspace(float(s), float(e), size_t(in.i()), parse_dtype(dt)));
});
static reg r14("zeros", [](In &in, Out &) {
    auto n = in.s(), dt = in.s();
    put(n, bland::zeros(in.iv(), parse_dtype(dt)));
});
static reg r15("ones", [](In &in, Out &) {
    auto n = in.s(), dt = in.s();
    put(n, bland::ones(in.iv(), parse_dtype(dt)));
});
static reg r16("write", [](In &in, Out &) {
    auto &a = at(st.A, in.s());
    bland::write_to_file(a, in.s());
});
static reg r17("read", [](In &in, Out &) {
    auto n = in.s(), p = in.s();
    put(n, bland::read_from_file(p, parse_dtype(in.s())));
});

// ---- arithmetic ---------------------------------------------------------------------------
template <class X, class Y>
static ndarray arith(const std::string &op, X a, Y b, bool member) {
    if (member) {
        if (op == "add") return a.add(b);
        if (op == "sub") return a.subtract(b);
        if (op == "mul") return a.multiply(b);
        if (op == "div") return a.divide(b);
    } else {
        if (op == "add") return bland::add(a, b);
        if (op == "sub") return bland::subtract(a, b);
        if (op == "mul") return bland::multiply(a, b);
        if (op == "div") return bland::divide(a, b);
    }
    throw bad_command("op " + op);
}
static reg q1("bin", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto a = at(st.A, in.s()), b = at(st.A, in.s());
    auto how = in.s();
    if (how == "o") {
        if (op == "add") put(d, a + b);
        else if (op == "sub") put(d, a - b);
        else if (op == "mul") put(d, a * b);
        else put(d, a / b);
    } else
        put(d, arith<ndarray, ndarray>(op, a, b, how == "m"));
});
template <class T>
static ndarray arith_op(const std::string &op, ndarray a, T v) {
    if (op == "add") return a + v;
    if (op == "sub") return a - v;
    if (op == "mul") return a * v;
    return a / v;
}
template <class T>
static ndarray rarith_op(const std::string &op, T v, ndarray a) {
    if (op == "add") return v + a;
    if (op == "sub") return v - a;
    if (op == "mul") return v * a;
    return v / a;
}
static reg q2("scal", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto a  = at(st.A, in.s());
    auto vt = in.s();
    double v = in.d();
    auto how = in.s();
#define GO(T) put(d, how == "o" ? arith_op<T>(op, a, T(v)) : arith<ndarray, T>(op, a, T(v), false))
    if (vt == "f") GO(float);
    else if (vt == "b") GO(uint8_t);
    else if (vt == "i") GO(int32_t);
    else if (vt == "u") GO(uint32_t);
    else throw bad_command("vt");
#undef GO
});
static reg q3("rscal", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto vt = in.s();
    double v = in.d();
    auto a  = at(st.A, in.s());
    if (vt == "f") put(d, rarith_op<float>(op, float(v), a));
    else if (vt == "i") put(d, rarith_op<int32_t>(op, int32_t(v), a));
    else throw bad_command("vt");
});
static reg q4("un", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto a = at(st.A, in.s());
    if (op == "square") put(d, bland::square(a));
    else if (op == "sqrt") put(d, bland::sqrt(a));
    else if (op == "abs") put(d, bland::abs(a));
    else throw bad_command("op");
});
static reg q4b("unout", [](In &in, Out &) { // unary with an explicit output
    auto op = in.s(), d = in.s();
    auto a = at(st.A, in.s()), out = at(st.A, in.s());
    if (op == "square") put(d, bland::square(a, out));
    else if (op == "sqrt") put(d, bland::sqrt(a, out));
    else if (op == "abs") put(d, bland::abs(a, out));
    else throw bad_command("op");
});

// ---- comparisons --------------------------------------------------------------------------
template <class X, class Y>
static ndarray cmp(const std::string &op, X a, Y b) {
    if (op == "gt") return a > b;
    if (op == "ge") return a >= b;
    if (op == "lt") return a < b;
    if (op == "le") return a <= b;
    if (op == "eq") return a == b;
    if constexpr (!std::is_same_v<X, float> && !std::is_same_v<Y, float>)
        if (op == "and") return a & b;
    throw bad_command("op " + op);
}
static reg c1("cmp", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto a = at(st.A, in.s()), b = at(st.A, in.s());
    put(d, cmp<ndarray, ndarray>(op, a, b));
});
static reg c2("cmps", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto a  = at(st.A, in.s());
    auto vt = in.s();
    double v = in.d();
    if (vt == "f") put(d, cmp<ndarray, float>(op, a, float(v)));
    else if (vt == "b") put(d, cmp<ndarray, uint8_t>(op, a, uint8_t(v)));
    else if (vt == "i") put(d, cmp<ndarray, int32_t>(op, a, int32_t(v)));
    else if (vt == "u") put(d, cmp<ndarray, uint32_t>(op, a, uint32_t(v)));
    else throw bad_command("vt");
});
static reg c3("rcmps", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto vt = in.s();
    double v = in.d();
    auto a  = at(st.A, in.s());
    if (vt == "f") put(d, cmp<float, ndarray>(op, float(v), a));
    else if (vt == "b") put(d, cmp<uint8_t, ndarray>(op, uint8_t(v), a));
    else if (vt == "i") put(d, cmp<int32_t, ndarray>(op, int32_t(v), a));
    else if (vt == "u") put(d, cmp<uint32_t, ndarray>(op, uint32_t(v), a));
    else throw bad_command("vt");
});
static reg c4("count", [](In &in, Out &o) { o.i("n", bland::count_true(at(st.A, in.s()))); });

// ---- reductions ---------------------------------------------------------------------------
static reg d1("red", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto &a = at(st.A, in.s());
    auto  ax = in.iv();
    if (op == "sum") put(d, bland::sum(a, ax));
    else if (op == "mean") put(d, bland::mean(a, ax));
    else if (op == "max") put(d, bland::max(a, ax));
    else if (op == "stddev") put(d, bland::stddev(a, ax));
    else if (op == "var") put(d, bland::var(a, ax));
    else throw bad_command("op");
});
static reg d1b("redout", [](In &in, Out &) { // reduction into a caller-provided array
    auto op = in.s();
    auto &out = at(st.A, in.s());
    auto &a = at(st.A, in.s());
    auto  ax = in.iv();
    if (op == "sum") bland::sum(a, out, ax);
    else if (op == "mean") bland::mean(a, out, ax);
    else if (op == "max") bland::max(a, out, ax);
    else if (op == "stddev") bland::stddev(a, out, ax);
    else throw bad_command("op");
});
static reg d1c("mredout", [](In &in, Out &) { // masked reduction into a caller-provided array
    auto op = in.s();
    auto &out = at(st.A, in.s());
    auto &a = at(st.A, in.s());
    auto &m = at(st.A, in.s());
    auto  ax = in.iv();
    if (op == "mean") bland::masked_mean(a, m, out, ax);
    else if (op == "stddev") bland::masked_stddev(a, m, out, ax);
    else throw bad_command("op");
});
static reg d2("mstd", [](In &in, Out &) {
    auto d1n = in.s(), d2n = in.s();
    auto &a = at(st.A, in.s());
    auto p  = bland::mean_stddev(a, in.iv());
    put(d1n, p.first), put(d2n, p.second);
});
static reg d3("mred", [](In &in, Out &) {
    auto op = in.s(), d = in.s();
    auto &a = at(st.A, in.s());
    auto &m = at(st.A, in.s());
    auto  ax = in.iv();
    if (op == "mean") put(d, bland::masked_mean(a, m, ax));
    else if (op == "stddev") put(d, bland::masked_stddev(a, m, ax));
    else if (op == "var") put(d, bland::masked_var(a, m, ax));
    else throw bad_command("op");
});
static reg d4("mmstd", [](In &in, Out &) {
    auto d1n = in.s(), d2n = in.s();
    auto &a = at(st.A, in.s());
    auto &m = at(st.A, in.s());
    auto p  = bland::masked_mean_stddev(a, m, in.iv());
    put(d1n, p.first), put(d2n, p.second);
});
static reg d5("median", [](In &in, Out &o) {
    auto &a = at(st.A, in.s());
    o.num("v", std::ldexp(double(bland::median(a, in.iv())), -st.unit));
});

// ---- deferred -----------------------------------------------------------------------------
static reg e1("def", [](In &in, Out &) { // deferred over a callable: counts its evaluations, returns base*count
    auto n = in.s(), policy = in.s();
    auto base = in.d();
    auto cnt  = std::make_shared<int>(0);
    auto f = [cnt, base]() {
        *cnt += 1;
        return ndarray({2}, float(base + *cnt), ndarray::datatype::float32);
    };
    st.counters[n] = cnt;
    auto p = policy == "lazy" ? ndarray_deferred::eval_policy::lazy
                              : policy == "memoize" ? ndarray_deferred::eval_policy::memoize
                                                    : ndarray_deferred::eval_policy::eager;
    if (policy == "default") st.D.insert_or_assign(n, ndarray_deferred(f));
    else st.D.insert_or_assign(n, ndarray_deferred(f, p));
});
static reg e2("defarr", [](In &in, Out &) { // deferred over an actual array
    auto n = in.s();
    st.D.insert_or_assign(n, ndarray_deferred(at(st.A, in.s())));
    st.counters[n] = std::make_shared<int>(0);
});
static reg e3("dhandle", [](In &in, Out &) {
    auto d = in.s(), s = in.s();
    auto copy = at(st.D, s);
    st.D.insert_or_assign(d, copy);
    st.counters[d] = at(st.counters, s);
});
static reg e4("dto", [](In &in, Out &) {
    auto d = in.s(), s = in.s();
    auto moved = at(st.D, s).to("cpu");
    st.D.insert_or_assign(d, moved);
    st.counters[d] = at(st.counters, s);
});
static reg e5("deval", [](In &in, Out &o) {
    auto n = in.s();
    ndarray a = at(st.D, n);
    o.dv("v", logical_values(a));
    o.i("n", *at(st.counters, n));
});
static reg e5b("dbump", [](In &in, Out &o) { // evaluate, then write through the result
    auto n = in.s();
    ndarray a = at(st.D, n);
    bland::fill(a, float(in.d()));
    o.dv("v", logical_values(a));
    o.i("n", *at(st.counters, n));
});
static reg e5c("dkeep", [](In &in, Out &o) { // evaluate and keep the resulting array
    auto d = in.s(), n = in.s();
    ndarray a = at(st.D, n);
    put(d, a);
    o.dv("v", logical_values(a));
});
static reg e7("ddrop", [](In &in, Out &) {
    auto n = in.s();
    st.D.erase(n), st.counters.erase(n);
});
static reg e6("dcount", [](In &in, Out &o) { o.i("n", *at(st.counters, in.s())); });
// ---- large arrays, as runs of equal elements ------------------------------------------------
template <class F>
static void each_element(ndarray &a, F f) {
    auto shape = a.shape(), strides = a.strides(), offs = a.offsets();
    int64_t base = 0;
    for (auto o : offs) base += o;
    std::vector<int64_t> idx(shape.size(), 0);
    for (int64_t k = 0, n = a.numel(); k < n; ++k) {
        int64_t off = base;
        for (size_t d = 0; d < shape.size(); ++d) off += idx[d] * strides[d];
        f(off);
        for (int d = int(shape.size()) - 1; d >= 0 && ++idx[d] == shape[d]; --d) idx[d] = 0;
    }
}
static reg lg0("setruns", [](In &in, Out &) { // setruns NAME n v n v ...
    auto &a = at(st.A, in.s());
    auto  r = in.dv();
    with_type(dtype_code(a.dtype()), [&](auto t) {
        using T = decltype(t);
        auto    p = a.data_ptr<T>();
        size_t  i = 0;
        int64_t left = r.at(0);
        each_element(a, [&](int64_t off) {
            while (left == 0) left = r.at(i += 2);
            p[off] = static_cast<T>(r.at(i + 1)), --left;
        });
    });
});
static void runs_of(const std::vector<double> &v, Out &o) {
    std::vector<int64_t> n;
    std::vector<double>  x;
    for (auto e : v) {
        if (x.empty() || std::memcmp(&x.back(), &e, sizeof e)) n.push_back(0), x.push_back(e);
        ++n.back();
    }
    if (n.size() > 500) throw std::runtime_error("more than 500 runs");
    o.iv("n", n), o.raw("v", jdv(x));
}
static reg lg1("getruns", [](In &in, Out &o) {
    auto &a = at(st.A, in.s());
    o.iv("shape", a.shape()), o.str("dt", dtype_code(a.dtype()));
    runs_of(logical_values(a), o);
});
static reg lg2("getsteps", [](In &in, Out &o) { // runs of the differences of neighbours
    auto &a = at(st.A, in.s());
    o.iv("shape", a.shape()), o.str("dt", dtype_code(a.dtype()));
    auto v = logical_values(a);
    o.raw("first", jdv({v.empty() ? 0 : v[0]}));
    for (size_t i = 0; i + 1 < v.size(); ++i) v[i] = v[i + 1] - v[i];
    if (!v.empty()) v.pop_back();
    runs_of(v, o);
});
static reg z0("moment", [](In &in, Out &) {
    auto  d = in.s();
    auto &a = at(st.A, in.s());
    int   degree = in.i();
    put(d, bland::standardized_moment(a, degree, in.iv()));
});
static reg z1("psd", [](In &in, Out &) {
    auto d = in.s();
    put(d, bland::fft_shift_mag_square(at(st.A, in.s())));
});
