"""The command interpreter of the harness, answered by the Python modules.

pyworker.py DIR(pybliss) CONFORM SCRATCH

Arrays are numpy arrays on the way in and whatever the modules return on the way out.  Commands that only prepare files go to
the C++ harness (a child process).  After "mode mirror" every command also goes to the C++ harness, whose answer is given with
everything that Python can see itself put in its place."""
import json, math, os, pickle, subprocess, sys

sys.path.insert(0, sys.argv[1])
os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")
out = os.fdopen(os.dup(1), "w")
os.dup2(os.open("/dev/null", os.O_WRONLY), 1)  # what the library prints stays out of the answers
import numpy as np  # noqa: E402
import pybliss as B  # noqa: E402

bl, fl, es, ds, io = B.bland, B.flaggers, B.estimators, B.drift_search, B.io
DT = {"f": np.float32, "d": np.float64, "b": np.uint8, "B": np.int8, "h": np.int16, "H": np.uint16, "i": np.int32, "u": np.uint32, "l": np.int64, "L": np.uint64}
CODE = {np.dtype(v): k for k, v in DT.items()}
TMP = os.path.join(sys.argv[3], "py%d" % os.getpid())


class Bad(Exception):
    pass


class Helper:
    p = None

    def ask(self, line):
        if not self.p:
            env = dict(os.environ)
            env.pop("LD_PRELOAD", None)
            self.p = subprocess.Popen([sys.argv[2]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=sys.argv[3])
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


helper = Helper()
V = {}  # arrays, scans, ... : (kind, name) -> object


class In:
    def __init__(self, line):
        self.t, self.i = line.split(), 0

    def s(self):
        if self.i >= len(self.t):
            raise Bad("missing token")
        self.i += 1
        return self.t[self.i - 1]

    def n(self):
        return int(self.s())

    def d(self):
        return float(self.s())

    def iv(self):
        return [self.n() for _ in range(self.n())]

    def dv(self):
        return [self.d() for _ in range(self.n())]


def at(kind, name):
    if (kind, name) not in V:
        raise Bad("unknown name " + name)
    return V[kind, name]


def num(x):
    x = float(x)
    return "nan" if math.isnan(x) else ("inf" if x > 0 else "-inf") if math.isinf(x) else x


def val(a):
    """What numpy sees of something the modules returned"""
    if isinstance(a, (np.ndarray, float, int)):
        return np.asarray(a)
    if turn() and a.numel() < 5000:
        if a.ndim() != 1 and list(a.strides())[-1:] == [1] and turn():
            f = bl.add(a, a).reshape([a.numel()])  # an array of its own, in another shape
            if list(f.shape()) != [a.numel()] or np.from_dlpack(f).tobytes() != np.from_dlpack(bl.add(a, a)).tobytes():
                raise RuntimeError("reshaped to something else")
        a = a.to("cpu")
    n = np.from_dlpack(a)
    if list(n.shape) != list(a.shape()) or n.size != a.numel() or n.ndim != a.ndim() or any(a.size(d) != n.shape[d] for d in range(n.ndim)):
        raise RuntimeError("the shapes seen through dlpack and told by the array differ")
    return n


def jarray(a):
    n = val(a)
    return {"shape": list(n.shape), "dt": CODE[n.dtype], "v": [num(x) if n.dtype.kind == "f" else int(x) for x in n.ravel()]}


def scalar(vt, v):
    return float(v) if vt == "f" else int(v)


OPS = {"add": bl.add, "sub": bl.subtract, "mul": bl.multiply, "div": bl.divide, "lt": bl.less_than, "gt": bl.greater_than, "square": bl.square,
       "sum": bl.sum, "mean": bl.mean, "max": bl.max, "stddev": bl.stddev, "var": bl.var}
MASKED = {"mean": bl.masked_mean, "stddev": bl.masked_stddev}
FLAGS = {1: "filter_rolloff", 2: "low_spectral_kurtosis", 4: "high_spectral_kurtosis"}
HIT = [("idx", "start_freq_index"), ("freq", "start_freq_MHz"), ("t0", "start_time_sec"), ("dur", "duration_sec"), ("rate", "rate_index"), ("drift", "drift_rate_Hz_per_sec"),
       ("power", "power"), ("span", "time_span_steps"), ("snr", "snr"), ("bw", "bandwidth"), ("binw", "binwidth")]
INTS = ("idx", "rate", "span", "binw")


def jhit(h):
    o = {k: getattr(h, a) if k in INTS else num(getattr(h, a)) for k, a in HIT}
    o["cc"] = h.__getstate__()[11]
    o["rfi"] = {str(next(n for n, a in FLAGS.items() if getattr(fl.flag_values, a) == k)): int(c) for k, c in h.rfi_counts.items()}
    return o


def parse_hits(i):
    l = []
    for _ in range(i.n()):
        v = {k: i.n() if k in INTS else i.d() for k, _ in HIT}
        h = ds.hit.__new__(ds.hit)
        cc = i.n()
        # a hit can only be made from a saved state; its fields are then set one by one
        h.__setstate__((0, 0.0, 0, 0.0, 0.0, 0, 0.0, 0.0, 0, 0.0, 0.0, cc))
        for k, a in HIT:
            setattr(h, a, v[k])
        h.rfi_counts = {getattr(fl.flag_values, FLAGS[i.n()]): i.n() for _ in range(i.n())}
        l.append(h)
    return l


def jevent(e):
    return {"hits": [jhit(h) for h in e.hits], "freq": num(e.starting_frequency_Hz), "power": num(e.average_power), "bw": num(e.average_bandwidth), "snr": num(e.average_snr),
            "drift": num(e.average_drift_rate_Hz_per_sec), "t0": num(e.event_start_seconds), "t1": num(e.event_end_seconds)}


def attr(o, x, name, f=num):
    try:
        return f(getattr(x, name))
    except RuntimeError as e:
        if "optional" in str(e):
            return None
        raise


def info(o, x):
    return {"fch1": num(x.fch1), "foff": num(x.foff), "nchans": x.nchans, "src": x.source_name, "tsamp": num(x.tsamp), "tstart": num(x.tstart),
            "raj": attr(o, x, "src_raj"), "dej": attr(o, x, "src_dej"), "tel": attr(o, x, "telescope_id", int), "machine": attr(o, x, "machine_id", int),
            "az": attr(o, x, "az_start"), "za": attr(o, x, "za_start")}


def chan_info(c):
    return dict(info("c", c), nbits=attr("c", c, "nbits", int), dtype=c.data_type)


KIND = {"c": "C", "s": "S", "t": "T", "k": "K"}
TEMP = [0]
TURN = [0]


def turn():
    """Every other time."""
    TURN[0] += 1
    return TURN[0] % 2


def tmp():
    TEMP[0] += 1
    os.makedirs(TMP, exist_ok=True)
    return os.path.join(TMP, "f%d" % TEMP[0])


WRITE = {"hits": io.write_hits_to_capnp_file, "scan": io.write_scan_hits_to_file, "target": io.write_observation_target_hits_to_capnp_files,
         "cadence": io.write_cadence_hits_to_capnp_files, "events": io.write_events_to_file}
READ = {"hits": io.read_hits_from_capnp_file, "scan": io.read_scan_hits_from_capnp_file, "target": io.read_observation_target_hits_from_capnp_files,
        "cadence": io.read_cadence_hits_from_capnp_files, "events": io.read_events_from_file}


def need(r):
    if "bad" in r:
        raise Bad(r["bad"])
    if not r["ok"]:
        raise Failed(r)
    return r


class Failed(Exception):
    pass


def called(f, x, names, values, defaults):
    """A function called by position or by name, and without the arguments that have their default value."""
    if turn():
        return f(x, *values)
    return f(x, **{n: v for n, v in zip(names, values) if n not in defaults or defaults[n] != v})


def cpu(x):
    """Where it already is."""
    if turn():
        if turn():
            x.set_device("cpu", False)
        else:
            x.set_device(device=bl.ndarray.dev("cpu"), verbose=False)
        if isinstance(x, B.scan):
            x.push_device()
    return x


def sliced(f, start, count):
    return f(start, count) if turn() else f(**dict({} if start == 0 else {"start": start}, **({} if count == 1 else {"count": count})))


def options(o, defaults, **values):
    """Options that have the value they should have by default are left alone, every other time."""
    left = turn()
    for n, v in values.items():
        if not (left and n in defaults and defaults[n] == v):
            setattr(o, n, v)
    return o


def stage(op, x, i, lvl):
    if op == "rolloff":
        return called(fl.flag_filter_rolloff, x, ["rolloff_width"], [i.d()], {})
    if op == "sk":
        return called(fl.flag_spectral_kurtosis, x, ["lower_threshold", "upper_threshold", "d"], [i.d(), i.d(), i.d()], {"d": 2})
    if op == "mag":
        return fl.flag_magnitude(x, i.d())
    if op == "magauto":
        return fl.flag_magnitude(x)
    if op == "sclip":
        return called(fl.flag_sigmaclip, x, ["max_iter", "lower_threshold", "upper_threshold"], [i.n(), i.d(), i.d()], {"max_iter": 3, "lower_threshold": 4, "upper_threshold": 4})
    if op == "normalize":
        return B.preprocess.normalize(x)
    if op == "equalizefile":
        return B.preprocess.equalize_passband_filter(x, i.s())
    if op == "equalizearr":  # equalize by a response read from a file by the modules
        return B.preprocess.equalize_passband_filter(x, bl.read_from_file(i.s(), bl.ndarray.datatype("float")))
    if op == "dedrift":
        return ds.integrate_drifts(x, options(B.integrate_drifts_options(), {"desmear": True, "rate_step_size": 1}, desmear=bool(i.n()), low_rate=i.n(), high_rate=i.n(), rate_step_size=i.n()))
    if op == "filter":
        return ds.filter_hits(x, options(ds.filter_options(), {"filter_zero_drift": True}, filter_zero_drift=bool(i.n())))
    if op == "noise":
        return es.estimate_noise_power(x, options(es.noise_power_estimate_options(), {"masked_estimate": True}, estimator_method=es.noise_power_estimator.stddev, masked_estimate=bool(i.n())))
    if op == "hits":
        cc = ds.hit_search_methods.connected_components
        return ds.hit_search(x, options(ds.hit_search_options(), {"method": cc, "snr_threshold": 10, "neighbor_l1_dist": 7},
                                        method=ds.hit_search_methods.local_maxima if i.s() == "lm" else cc, snr_threshold=i.d(), neighbor_l1_dist=i.n()))
    raise Bad("stage " + op)


def filed(names):
    """A scan of a file of the channels of these names."""
    made = [at("made", n) for n in names]
    if None in made:
        raise Bad("not as it was made")
    d, (fch1, foff, tsamp, tstart) = np.concatenate([m[0] for m in made], axis=1), made[0][1]
    path = tmp() + ".h5"
    need(helper.ask("h5w %s %d %d %s %s %s %s src 1.5 2.5 6 class %d %s" % (path, d.shape[0], d.shape[1], fch1, foff, tsamp, tstart, d.size, " ".join(repr(float(x)) for x in d.ravel()))))
    s = B.scan(path, d.shape[1] // len(names))
    files.append(path)
    return s


files = []


def run(line):
    i = In(line)
    c = i.s()
    # ---- arrays
    if c == "new":
        n, dt = i.s(), i.s()
        sh = i.iv()
        v = i.dv()
        V["A", n] = np.array(v, DT[dt]).reshape(sh)
        return {}
    if c == "slice":
        n, a, d, s, e, st = i.s(), at("A", i.s()), i.n(), i.n(), i.n(), i.n()
        V["A", n] = a[tuple([slice(None)] * d + [slice(s, e, st)])]
        return {}
    if c == "squeeze":
        n, a = i.s(), at("A", i.s())
        V["A", n] = np.squeeze(a, i.n())
        return {}
    if c == "rev":  # the same elements, the memory running the other way along an axis / with axes exchanged
        n, a, d = i.s(), at("A", i.s()), i.n()
        V["A", n] = np.flip(np.ascontiguousarray(np.flip(a, d)), d)
        return {}
    if c == "fort":
        n, a = i.s(), at("A", i.s())
        V["A", n] = np.asfortranarray(a)
        return {}
    if c == "handle":
        n = i.s()
        V["A", n] = at("A", i.s())
        return {}
    if c == "get":
        return {"a": jarray(at("A", i.s()))}
    if c == "fill":
        a = val(at("A", i.s()))
        i.s()
        if a.flags.writeable and a.ndim:
            a[...] = i.d()
        return {}
    if c == "bin":
        op, n, a, b = OPS[i.s()], i.s(), at("A", i.s()), at("A", i.s())
        V["A", n] = op(a, b)
        return {}
    if c in ("scal", "cmps"):
        op, n, a, vt, v = OPS[i.s()], i.s(), at("A", i.s()), i.s(), i.d()
        V["A", n] = op(a, scalar(vt, v))
        return {}
    if c == "un":
        op, n = OPS[i.s()], i.s()
        V["A", n] = op(at("A", i.s()))
        return {}
    if c == "red":
        op, n, a, ax = OPS[i.s()], i.s(), at("A", i.s()), i.iv()
        V["A", n] = op(a, ax) if ax or turn() else op(a)
        return {}
    if c == "mstd":
        n, m, a, ax = i.s(), i.s(), at("A", i.s()), i.iv()
        V["A", n], V["A", m] = bl.mean_stddev(a, axes=ax)
        return {}
    if c == "mred":
        op, n, a, m, ax = MASKED[i.s()], i.s(), at("A", i.s()), at("A", i.s()), i.iv()
        V["A", n] = op(a, m, ax)
        return {}
    if c == "mmstd":
        n, n2, a, m, ax = i.s(), i.s(), at("A", i.s()), at("A", i.s()), i.iv()
        V["A", n], V["A", n2] = bl.masked_mean_stddev(a, m, axes=ax)
        return {}
    if c == "newfill":
        n, dt, sh = i.s(), i.s(), i.iv()
        i.s()
        V["A", n] = np.full(sh, i.d(), DT[dt])
        return {}
    if c == "setruns":
        a, n = at("A", i.s()), i.n()
        r = [i.d() for _ in range(n)]
        a[...] = np.repeat(np.array(r[1::2]), np.array(r[::2], dtype=int)).reshape(a.shape)
        return {}
    if c in ("getruns", "getsteps"):
        a = val(at("A", i.s()))
        v = a.reshape(-1).astype(np.float64)
        r = {"shape": list(a.shape), "dt": CODE[a.dtype]}
        if c == "getsteps":
            r["first"] = [num(v[0])]
            v = v[1:] - v[:-1]
        e = [k for k in range(1, len(v)) if v[k] != v[k - 1]] + [len(v)]
        if len(e) > 500:
            raise RuntimeError("more than 500 runs")
        return dict(r, n=[y - x for x, y in zip([0] + e, e)], v=[num(v[y - 1]) for y in e])
    if c == "moment":
        n, a, k, ax = i.s(), at("A", i.s()), i.n(), i.iv()
        V["A", n] = bl.standardized_moment(a, k, ax)
        return {}
    if c == "psd":
        n = i.s()
        V["A", n] = bl.fft_shift_mag_square(at("A", i.s()))
        return {}
    if c == "firdes":
        n = i.s()
        V["A", n] = B.preprocess.firdes(i.n(), i.d(), "hamming")
        return {}
    if c == "ccresp":
        n = i.s()
        V["A", n] = B.preprocess.gen_coarse_channel_response(i.n(), i.n(), i.n())
        return {}
    if c == "median":
        a, ax = at("A", i.s()), i.iv()
        return {"v": num(bl.median(a, ax))}
    if c == "pyslice":  # the modules' own slice
        n, a = i.s(), at("A", i.s())
        V["A", n] = bl.slice(a, i.n(), i.n(), i.n(), i.n())
        return {}
    if c == "write":
        a = at("A", i.s())
        bl.write_to_file(a if isinstance(a, bl.ndarray) else bl.add(a, 0.0), i.s())
        return {}
    if c == "read":
        n, p, dt = i.s(), i.s(), i.s()
        V["A", n] = bl.read_from_file(p, bl.ndarray.datatype({"f": "float"}[dt]))
        return {}
    if c == "arange":
        n = i.s()
        i.s(), i.s()
        V["A", n] = bl.arange(i.d(), i.d(), i.d())
        return {}
    if c == "linspace":
        n = i.s()
        i.s()
        V["A", n] = bl.linspace(i.d(), i.d(), i.n())
        return {}
    if c == "keep":  # keep only numpy's view of an array
        n = i.s()
        V["A", n] = val(at("A", n))
        return {}
    # ---- hits
    if c == "hlist":
        n = i.s()
        V["H", n] = parse_hits(i)
        return {}
    if c == "hget":
        return {"hits": [jhit(h) for h in at("H", i.s())]}
    if c == "hfilter":
        l, o = at("H", i.s()), options(ds.filter_options(), {"filter_zero_drift": True}, filter_zero_drift=bool(i.n()))
        return {"hits": [jhit(h) for h in ds.filter_hits(l, o)]}
    if c == "hstate":
        n, l = i.s(), at("H", i.s())
        V["H", n] = pickle.loads(pickle.dumps(l))
        return {}
    # ---- scans, targets, cadences
    if c == "scanh5":
        n, p, fine = i.s(), i.s(), i.n()
        V.pop(("S", n), None)
        s = V["S", n] = cpu(B.scan(p) if fine == 0 and turn() else B.scan(file_path=p, fine_channels_per_coarse=fine))
        if s.get_file_path() != p:
            raise RuntimeError("not the path given")
        return {}
    if c == "scaninfo":
        s = at("S", i.s())
        return dict(info("s", s), ncoarse=s.num_coarse_channels)
    if c in ("scanread", "scanpeek"):
        V.pop(("C", "last"), None)
        s, k, data = at("S", i.s()), i.n(), i.n()
        ch = s.read_coarse_channel(k) if c == "scanread" else s.peak_coarse_channel(k)
        if ch is None:
            return {"null": True}
        V["C", "last"] = ch
        o = dict(chan_info(ch), null=False)
        if data:
            o.update(data=jarray(ch.data), mask=jarray(ch.mask))
        return o
    if c == "copy":
        n = i.s()
        V["A", n] = val(at("A", i.s())).copy()
        return {}
    if c == "cc":  # a channel of given contents: the first of a file (Python makes no others)
        n, d, m, md = i.s(), at("A", i.s()), at("A", i.s()), i.t[4:8]
        if val(m).any():
            raise Bad("files have no masks")
        V["made", n] = (val(d), md)
        V["C", n] = filed([n]).read_coarse_channel(0)
        return {}
    if c == "scanmap":  # a scan of channels that were only made: a file of them
        n = i.s()
        V["S", n] = filed([i.s() for _ in range(i.n())])
        return {}
    if c == "cchandle":
        n, a = i.s(), i.s()
        V["C", n] = at("C", a)
        V["made", n] = V.get(("made", a))
        return {}
    if c == "scanhandle":
        n = i.s()
        V["S", n] = at("S", i.s())
        return {}
    if c == "ccget":
        x = at("C", i.s())
        return {"data": jarray(x.data), "mask": jarray(x.mask)}
    if c == "ccplane":
        p = at("C", i.s()).integrated_drift_plane()
        if turn():
            p.set_device("cpu")
            p.push_device()
        f = p.integrated_rfi
        rates = [{"idx": r.index_in_plane, "slope": num(r.drift_rate_slope), "hz": num(r.drift_rate_Hz_per_sec), "smear": r.desmeared_bins} for r in p.drift_rate_info()]
        return {"plane": jarray(p.integrated_drifts), "lo": jarray(f.low_spectral_kurtosis), "hi": jarray(f.high_spectral_kurtosis), "roll": jarray(f.filter_rolloff), "rates": rates}
    if c == "ccnoise":
        n = i.s()
        x = at("C", n)
        try:
            e = V.get(("noise", n)) or x.noise_estimate
        except RuntimeError as e:
            raise Failed({"ok": False, "exc": "std::logic_error", "msg": str(e)})
        return {"floor": num(e.noise_floor), "power": num(e.noise_power)}
    if c == "ask":
        a = at("A", i.s())
        return {"sk": jarray(called(es.estimate_spectral_kurtosis, a if isinstance(a, bl.ndarray) else bl.add(a, 0.0), ["N", "M", "d"], [i.n(), i.n(), i.d()], {"d": 2}))}
    if c == "ccsk":
        return {"sk": jarray(called(es.estimate_spectral_kurtosis, at("C", i.s()), ["d"], [i.d()], {"d": 2}))}
    if c == "anoise":
        a, o = at("A", i.s()), es.noise_power_estimate_options()
        o.estimator_method, o.masked_estimate = es.noise_power_estimator.stddev, bool(i.n())
        e = es.estimate_noise_power(a, o)
        return {"floor": num(e.noise_floor), "power": num(e.noise_power)}
    if c == "aflag":
        op, n, a = i.s(), i.s(), at("A", i.s())
        a = a if isinstance(a, bl.ndarray) else bl.add(a, 0.0)
        V["A", n] = {"mag": lambda: fl.flag_magnitude(a, i.d()), "sclip": lambda: fl.flag_sigmaclip(a, i.n(), i.d(), i.d())}[op]()
        return {}
    if c == "scanslice":
        n, s = i.s(), at("S", i.s())
        V["S", n] = sliced(s.slice_scan_channels, i.n(), i.n())
        return {}
    if c == "scanfreqrel":
        s = at("S", i.s())
        return {"cc": s.get_coarse_channel_with_frequency(s.fch1 + s.foff * (i.d() + 0.5))}
    if c == "scanhits":
        s = at("S", i.s())
        r = [jhit(h) for h in s.hits()]
        if [jhit(h) for k in range(s.num_coarse_channels) for h in s.read_coarse_channel(k).hits] != r:
            raise RuntimeError("the hits of a scan are not those of its channels")
        return {"hits": r}
    if c == "h5read":
        f = io.h5_filterbank_file(i.s())
        a = i.iv(), i.iv()
        return {"data": jarray(f.read_data(*a)), "mask": jarray(f.read_mask(*a))}
    if c == "target":
        n = i.s()
        V["T", n] = cpu(B.observation_target([at("S", i.s()) for _ in range(i.n())]))
        return {}
    if c == "targeth5":
        n, fine = i.s(), i.n()
        V["T", n] = B.observation_target([i.s() for _ in range(i.n())], fine)
        return {}
    if c == "cadence":
        n = i.s()
        V["K", n] = cpu(B.cadence([at("T", i.s()) for _ in range(i.n())]))
        return {}
    if c == "cadenceh5":
        n, fine = i.s(), i.n()
        V["K", n] = B.cadence([[i.s() for _ in range(i.n())] for _ in range(i.n())], fine)
        return {}
    if c in ("tvalid", "kvalid"):
        return {"v": at(c[0].upper(), i.s()).validate_scan_consistency()}
    if c in ("tncoarse", "kncoarse"):
        return {"v": at(c[0].upper(), i.s()).number_coarse_channels}
    if c == "tfreqrel":
        t = at("T", i.s())
        if not t.scans:
            raise IndexError("no scans")
        s = t.scans[0]
        return {"v": t.get_coarse_channel_with_frequency(s.fch1 + s.foff * (i.d() + 0.5))}
    if c == "kfreqrel":
        k = at("K", i.s())
        for t in k.observations:
            if t.scans:
                s = t.scans[0]
                return {"v": k.get_coarse_channel_with_frequency(s.fch1 + s.foff * (i.d() + 0.5))}
        raise Bad("empty cadence")
    if c == "tslice":
        n, t = i.s(), at("T", i.s())
        V["T", n] = sliced(t.slice_observation_channels, i.n(), i.n())
        return {}
    if c == "kslice":
        n, k = i.s(), at("K", i.s())
        V["K", n] = sliced(k.slice_cadence_channels, i.n(), i.n())
        return {}
    if c == "tname":
        t = at("T", i.s())
        return {"name": t.target_name, "n": len(t.scans)}
    if c == "kcount":
        return {"n": [len(t.scans) for t in at("K", i.s()).observations]}
    if c == "tscan":
        n = i.s()
        V.pop(("S", n), None)
        V["S", n] = at("T", i.s()).scans[i.n()]
        return {}
    if c == "ktarget":
        n = i.s()
        V.pop(("T", n), None)
        V["T", n] = at("K", i.s()).observations[i.n()]
        return {}
    if c == "stage":
        lvl, op, n, src = i.s(), i.s(), i.s(), i.s()
        x = at(KIND[lvl], src)
        if (lvl, op) == ("c", "noise"):  # Python has the estimate, and no way to give it to the channel
            V["C", n], V["noise", n] = x, stage(op, x, i, lvl)
            return {}
        V[KIND[lvl], n] = stage(op, x, i, lvl)
        return {}
    if c == "events":
        n = i.s()
        V["E", n] = ds.event_search(at("K", i.s()))
        return {"events": [jevent(e) for e in V["E", n]]}
    raise Bad("no such command " + c)


def relay(line):
    """Files written and read by the modules, everything else by the C++ harness."""
    i = In(line)
    c = i.s()
    if c == "save":
        kind, n, path = i.s(), i.s(), i.s()
        kind = "hits" if kind == "vhits" else kind
        if kind in WRITE:
            t = tmp()
            r = helper.ask("save %s %s %s" % (kind, n, t))
            if not r.get("ok"):  # nothing to write: Python has no part in it
                r = helper.ask("save %s %s %s" % (kind, n, path))
            need(r)
            x = READ[kind](t)
            if kind == "hits" and len(x) % 2:
                x = pickle.loads(pickle.dumps([y for y in x])) if not any(h.rfi_counts for h in x) else x
            WRITE[kind](x, path)
            return {}
    if c == "load":
        kind, n, path = i.s(), i.s(), i.s()
        if kind in READ:
            t = tmp()
            WRITE[kind](READ[kind](path), t)
            need(helper.ask("load %s %s %s" % (kind, n, t)))
            return {}
    if c == "hstate":
        n, a, t = i.s(), i.s(), tmp()
        need(helper.ask("save hits %s %s" % (a, t)))
        io.write_hits_to_capnp_file(pickle.loads(pickle.dumps(io.read_hits_from_capnp_file(t))), t + "b")
        need(helper.ask("load hits %s %sb" % (n, t)))
        return {}
    return need(helper.ask(line))


EXC = {ValueError: "std::invalid_argument", RuntimeError: "std::runtime_error", IndexError: "std::out_of_range", TypeError: "TypeError", OverflowError: "OverflowError"}


def kin(e, name):
    """Is the C++ exception one that Python shows as e?"""
    base = {"invalid_argument": ValueError, "domain_error": ValueError, "out_of_range": IndexError, "length_error": ValueError}
    return type(e) is base.get(name.split("::")[-1], RuntimeError)


FILES = ("h5w", "h5tones", "freshdir", "run", "unlink", "lsdir")
mode = "native"
for line in sys.stdin:
    line = line.strip()
    TURN[0] += len(line)
    try:
        if line == "reset":
            V.clear()
            TURN[0] = 0
            while files:
                os.unlink(files.pop())
            mode = "native"
            if helper.p:
                helper.ask("reset")
            r = {}
        elif line.startswith("mode "):
            mode, r = line[5:], {}
        elif line.split()[0] in FILES or mode == "relay" or mode == "hits" and line.split()[0] not in ("hlist", "hget", "hfilter"):
            r = relay(line)
        elif mode == "native":
            r = run(line)
        else:
            theirs = helper.ask(line)
            if line.split()[0] == "log":
                r = need(theirs)
            else:
                try:
                    r = run(line)
                except Bad:
                    raise
                except Exception as e:  # noqa
                    if "exc" in theirs and kin(e, theirs["exc"]):
                        raise Failed(theirs)
                    raise
                if "bad" in theirs:
                    raise Bad(theirs["bad"])
                if theirs["ok"]:
                    del theirs["ok"]
                    if "rates" in r:
                        r["rates"] = [dict(x, **y) for x, y in zip(theirs["rates"], r["rates"])] if len(theirs["rates"]) == len(r["rates"]) else r["rates"]
                    r = dict(theirs, **r)
        r = dict(r, ok=True)
    except Bad as e:
        r = {"bad": str(e)}
    except Failed as e:
        r = e.args[0]
    except Exception as e:  # noqa
        r = {"ok": False, "exc": EXC.get(type(e), type(e).__name__), "msg": str(e)[:200]}
    out.write(json.dumps(r) + "\n")
    out.flush()
