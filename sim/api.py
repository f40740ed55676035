"""The package's public computation functions and generators for their arguments.

A call is plain JSON: {"f": "features.mfcc:mfcc", "a": {param: value}}. Array arguments are
specs ({"$": "arr", ...}) or names of buffers of the plan ({"$": "buf", "n": name}); window
objects are {"$": "win", "v": [len, hop, type]} or {"$": "winobj", "n": name}.
"""
import copy, json
import numpy as np

# ------------------------------------------------------------------ argument materialisation
SIG_KINDS = ["noise", "noise", "tone", "chirp", "half", "zeros", "impulse", "speech", "int", "unit", "dc", "quiet", "nan", "sparse"]
LAYOUTS = ["C", "C", "C", "ro", "str", "rev", "list", "col", "emb"]


def make_array(sp):
    """Deterministic array from its spec."""
    k, n, s = sp["k"], sp["n"], sp.get("s", 0)
    g = np.random.Generator(np.random.PCG64(s))
    shape = tuple(n) if isinstance(n, list) else (n,)
    N = int(np.prod(shape))
    t = np.arange(N, dtype=float)
    if k == "noise":
        x = g.standard_normal(N) * 1000.0
    elif k == "tone":
        x = 3000.0 * np.sin(2 * np.pi * t * (0.01 + 0.2 * g.random())) + 5 * g.standard_normal(N)
    elif k == "chirp":
        x = 3000.0 * np.sin(2 * np.pi * t * (0.01 + 0.0002 * t * g.random()))
    elif k == "half":
        x = g.standard_normal(N) * 1000.0
        x[: N // 2] = 0
    elif k == "zeros":
        x = np.zeros(N)
    elif k == "impulse":
        x = np.zeros(N)
        x[int(g.integers(0, max(N, 1))):][:1] = 5000.0
    elif k == "speech":
        x = np.convolve(np.repeat(g.standard_normal(N // 50 + 1), 50)[:N] * g.standard_normal(N), np.hanning(9), "same")[:N] * 800
    elif k == "int":
        x = np.round(g.standard_normal(N) * 3000.0)
    elif k == "unit":
        x = g.random(N) * 2 - 1
    elif k == "dc":
        x = g.standard_normal(N) * 10 + 500
    elif k == "quiet":
        x = g.standard_normal(N) * 1e-9
    elif k == "nan":
        x = g.standard_normal(N) * 100.0
        x[int(g.integers(0, max(N, 1))):][:1] = np.nan
    elif k == "inf":
        x = g.standard_normal(N) * 100.0
        x[int(g.integers(0, max(N, 1))):][:1] = np.inf
    elif k == "odd":                       # dips, plateaus, holes, extremes
        w = s % 6
        x = np.abs(g.standard_normal(N)) * (0.08 if w < 3 else 0.5)
        if w in (0, 5):
            x[g.random(N) < (0.25 if w == 0 else 0.9)] = np.nan
        if w in (0, 2, 3):
            x[g.random(N) < 0.08] = np.inf
        if w in (1, 4):
            x = np.round(x, 1) * (1 if w == 1 else -1)
        if w == 3:
            x[g.random(N) < 0.3] = 5e-324
            x[g.random(N) < 0.2] = -1.7e308
        if w == 2:
            x[g.random(N) < 0.4] = 0.0
    elif k == "sparse":
        x = g.standard_normal(N) * 1000.0 * (g.random(N) < 0.6)
    elif k == "pos":
        x = g.random(N) + 0.01
    elif k == "const":
        x = np.full(N, float(sp.get("v", 1.0)))
    elif k == "inc":
        x = np.cumsum(g.random(N) + 0.1)
    elif k == "dec":
        x = np.cumsum(g.random(N) + 0.1)[::-1] * (1.0 / N)
    elif k in ("cplx", "cplxz"):
        x = g.standard_normal(N) + 1j * g.standard_normal(N)
        if k == "cplxz":
            x[g.random(N) < 0.3] = 0
    else:
        raise ValueError(k)
    x = x * sp.get("gain", 1)
    if "peak" in sp and N and np.nanmax(np.abs(x)) > 0:
        x = x * (sp["peak"] / np.nanmax(np.abs(x)))
    if "edit" in sp and N:                       # one sample differs
        x[sp["edit"] % N] += 123.25
    if "swap" in sp and N:                       # two samples trade places
        i, j = sp["swap"] % N, (sp["swap"] * 7 + 3) % N
        x[[i, j]] = x[[j, i]]
    dt = sp.get("dt", "float64")
    if dt != "float64" and k not in ("cplx", "cplxz"):
        x = np.asarray(np.clip(np.nan_to_num(x), -30000, 30000) if dt.startswith(("int", ">i")) else x).astype(dt)
    x = x.reshape(shape)
    lay = sp.get("lay", "C")
    if lay == "ro":
        x = x.copy()
        x.flags.writeable = False
    elif lay == "str":
        big = np.zeros(tuple(2 * d for d in x.shape), x.dtype)
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        x = big[tuple(slice(None, None, 2) for _ in x.shape)]
    elif lay == "emb":                     # a slice of a larger recording
        big = np.full(x.size + 96, sp.get("sur", 7), x.dtype)
        big[48:48 + x.size] = x.ravel()
        x = big[48:48 + x.size].reshape(x.shape)
    elif lay == "rev":
        x = np.ascontiguousarray(x[::-1])[::-1]
    elif lay == "F":
        x = np.asfortranarray(x)
    elif lay == "list":
        x = x.tolist()
    elif lay == "col":
        x = x.reshape(-1, 1)
    elif lay == "row":
        x = x.reshape(1, -1)
    elif x.base is not None:               # like most callers' arrays, it owns its memory
        x = x.copy()
    if sp.get("ro") and lay != "list":
        x.flags.writeable = False
    return x


def make_num(sp):
    """A number of another type."""
    return {"int": int, "float": float, "bool": bool, "str": str}.get(sp["t"], getattr(np, sp["t"], None))(sp["v"])


def typed(rng, call):
    """The same call with equal numbers of other types."""
    c = copy.deepcopy(call)
    for k, v in c["a"].items():
        if isinstance(v, (int, float)) and rng.random() < 0.7:
            ts = ["float64", "float32", "float", "float16"]
            if v == v and abs(v) < 1e9 and v == int(v):
                ts += ["int", "int64", "int16", "int32"] * 2
                if v in (0, 1):
                    ts += ["bool", "bool_"]
            if not isinstance(v, float) and k in ("nfft", "nfilts", "num_ceps", "order", "nceps", "frame_len", "w"):
                ts = ["int64", "int32", "int16", "float", "float64"]
            t = rng.choice(ts)
            if t == "int16" and abs(v) > 32767 or t == "float16" and abs(v) > 6e4:
                t = "float64"
            c["a"][k] = {"$": "num", "t": t, "v": v}
        elif isinstance(v, bool):
            c["a"][k] = {"$": "num", "t": rng.choice(["int", "float", "bool_"]), "v": v}
    return c


def canon(op, bufs=None, wins=None):
    """The call with buffer names replaced by what they hold: what identifies its outcome."""
    def r(v):
        if isinstance(v, dict):
            if v.get("$") == "buf":
                return dict({"$": "arr"}, **{k: w for k, w in bufs[v["n"]].items() if k != "$"})
            if v.get("$") == "winobj":
                return {"$": "win", "v": wins[v["n"]]}
        return v
    return {"f": op["f"], "a": {k: r(v) for k, v in op["a"].items()}}


def key(op):
    return json.dumps(op, sort_keys=True)


# ------------------------------------------------------------------ domains
WIN_TYPES = ["hamming", "hanning", "bartlet", "kaiser", "blackman"]
WINS = [[0.016, 0.008], [0.02, 0.01], [0.025, 0.01], [0.02, 0.02], [0.012, 0.005]]
FS = [8000, 16000, 4000, 11025]
ERB, BARK, MEL = ["Glasberg"], ["Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker"], ["Oshaghnessy", "Lindsay"]


class Ctx:
    """Shared values, so that calls of different functions line up."""

    def __init__(self, rng, small=False):
        self.fs = rng.choice([8000, 8000, 4000, 16000] if not small else [4000, 8000])
        self.nfft = rng.choice([64, 128, 128, 256] if not small else [32, 64])
        self.nfilts = rng.choice([14, 16, 20, 24] if not small else [13, 14])
        self.win = list(rng.choice(WINS)) + [rng.choice(WIN_TYPES)]
        self.frames = rng.randint(2, 7) if not small else 2
        self.sig = gen_sig(rng, self)
        self.low = rng.choice([0, 0, 50, 100.5, 300])
        self.high = rng.choice([self.fs / 2, self.fs / 2 - 0.5, 1500, 1500.5])
        self.num_ceps = rng.choice([5, 12, 13])


def nsamples(ctx, win=None):
    w = win or ctx.win
    w = [max(w[0], 0.025), max(w[1], 0.01)]
    return int(w[0] * ctx.fs) + int(w[1] * ctx.fs) * ctx.frames + 3


def gen_sig(rng, ctx, plain=False):
    sp = {"$": "arr", "k": rng.choice(SIG_KINDS), "n": nsamples(ctx), "s": rng.randrange(10000)}
    if not plain:
        sp["lay"] = rng.choice(LAYOUTS)
        sp["dt"] = rng.choice(["float64", "float64", "int16", "float32", "int32", ">i2", ">f8"])
    if rng.random() < 0.1:
        sp["gain"] = rng.choice([1e-6, 1e3, 0.1])
    return sp


# each domain: (rng, ctx, cfg) -> value ; MISSING = leave the default
MISSING = "<default>"


def opt(p, f):
    return lambda r, c, cfg: f(r, c, cfg) if r.random() < p else MISSING


def one(*vals):
    return lambda r, c, cfg: r.choice(vals)


def d_sig(r, c, cfg):
    return copy.deepcopy(c.sig) if r.random() < 0.6 else gen_sig(r, c)


def d_fs(r, c, cfg):
    return c.fs


def d_win(r, c, cfg):
    if r.random() < 0.3:
        return MISSING
    if r.random() < 0.5:
        return {"$": "win", "v": list(c.win)}
    return {"$": "win", "v": list(r.choice(WINS)) + [r.choice(WIN_TYPES)]}


def d_nfft(r, c, cfg):
    return c.nfft if r.random() < 0.8 else r.choice([64, 100, 128, 255])


def d_nfilts(r, c, cfg):
    return c.nfilts if r.random() < 0.8 else r.choice([13, 15, 18, 26])


def d_low(r, c, cfg):
    return MISSING if r.random() < 0.3 else (c.low if r.random() < 0.7 else r.choice([0, 0.4, 20, 100, 250.25, 300]))


def d_high(r, c, cfg):
    return MISSING if r.random() < 0.3 else (c.high if r.random() < 0.7 else r.choice([c.fs / 2, c.fs / 2 - 0.4, 1400, 1600.75]))


def d_high_req(r, c, cfg):
    return c.high if r.random() < 0.7 else r.choice([c.fs / 2, c.fs / 2 - 0.4, 1400, 1600.75])


d_scale = opt(0.6, one("ascendant", "descendant", "constant"))
d_pre = opt(0.7, one(True, False, 1, 0))
d_coef = opt(0.5, one(0.97, 0.95, 0.9, 0.5))
d_dct = opt(0.5, one(1, 2, 3, 4))
d_energy = opt(0.6, one(True, False))
d_lift = opt(0.6, one(0, 3, 0.7, -7, -1, -2, 22, 5))
d_norm = opt(0.6, one("mvn", "ms", "vn", "mn"))
d_nceps = lambda r, c, cfg: c.num_ceps if r.random() < 0.8 else r.choice([1, 7, 13])
d_order = one(8, 10, 13)


def d_conv(vals):
    return opt(0.5 if len(vals) > 1 else 0.2, one(*vals))


def fbanks_for(r, cfg):
    nf, nfft = cfg.get("nfilts", 24), cfg.get("nfft", 512)
    nf = nf if isinstance(nf, int) and 1 <= nf <= 200 else 24
    nfft = nfft if isinstance(nfft, int) and 2 <= nfft <= 8192 else 512
    return {"$": "arr", "k": "pos", "n": [nf, nfft // 2 + 1], "s": r.randrange(1000), "lay": r.choice(["C", "C", "F", "ro"])}


def d_fbanks(r, c, cfg):
    return fbanks_for(r, cfg) if r.random() < 0.3 else MISSING


def arr(kind, shape, **kw):
    def f(r, c, cfg):
        n = shape(r, c, cfg) if callable(shape) else shape
        d = {"$": "arr", "k": kind, "n": n, "s": r.randrange(10000)}
        d.update({k: (v(r) if callable(v) else v) for k, v in kw.items()})
        return d
    return f


def either(a, b, p=0.5):
    return lambda r, c, cfg: (a if r.random() < p else b)(r, c, cfg)


_lay2 = lambda r: r.choice(["C", "C", "F", "ro", "str"])
_lay1 = lambda r: r.choice(["C", "C", "ro", "str", "rev"])
_mat = lambda r, c, cfg: [c.frames + 1, c.nfilts]

CEPS = [("sig", d_sig), ("fs", d_fs), ("num_ceps", d_nceps), ("pre_emph", d_pre), ("pre_emph_coeff", d_coef),
        ("window", d_win), ("nfilts", d_nfilts), ("nfft", d_nfft), ("low_freq", d_low), ("high_freq", d_high),
        ("scale", d_scale), ("dct_type", d_dct), ("use_energy", d_energy), ("lifter", d_lift), ("normalize", d_norm),
        ("fbanks", d_fbanks)]
SPEC = [("sig", d_sig), ("fs", d_fs), ("pre_emph", d_pre), ("pre_emph_coeff", d_coef), ("window", d_win),
        ("nfilts", d_nfilts), ("nfft", d_nfft), ("low_freq", d_low), ("high_freq", d_high), ("scale", d_scale), ("fbanks", d_fbanks)]
BANK = [("nfilts", d_nfilts), ("nfft", d_nfft), ("fs", d_fs), ("low_freq", d_low), ("high_freq", d_high), ("scale", d_scale)]


def without(lst, *names):
    return [x for x in lst if x[0] not in names]


def conv(v):
    return [("conversion_approach", d_conv(v))]


def with_high(lst):
    return [(n, d_high_req if n == "high_freq" else d) for n, d in lst]


CQ = [("sig", d_sig), ("fs", d_fs), ("pre_emph", d_pre), ("pre_emph_coeff", d_coef), ("window", d_win),
      ("nfft", one(256, 256, 512)), ("low_freq", d_low), ("high_freq", d_high), ("number_of_octaves", one(2, 3)),
      ("number_of_bins_per_octave", one(4, 6)), ("spectral_threshold", opt(0.5, one(0.005, 0.0054, 0.01))),
      ("f0", opt(0.6, one(120, 200, 250))), ("q_rate", opt(0.4, one(1.0, 0.5)))]
PLP = [("sig", d_sig), ("fs", d_fs), ("order", d_order), ("pre_emph", d_pre), ("pre_emph_coeff", d_coef), ("window", d_win),
       ("nfilts", d_nfilts), ("nfft", one(64, 64, 128)), ("low_freq", d_low), ("high_freq", d_high), ("scale", d_scale),
       ("lifter", d_lift), ("normalize", d_norm), ("fbanks", d_fbanks)] + conv(["Wang", "Schroeder", "Tjomov"])
_hz = lambda r: 0

SPECTRUM = arr("cplx", lambda r, c, cfg: c.nfft // 2 + 1, lay=_lay1)
API = {
    # features
    "features.mfcc:mfcc": CEPS + conv(MEL),
    "features.mfcc:imfcc": with_high(CEPS) + conv(MEL),
    "features.mfcc:mel_spectrogram": SPEC + conv(MEL),
    "features.msrcc:msrcc": CEPS + [("gamma", opt(0.5, one(-1 / 7, 0.5, -0.3)))] + conv(MEL),
    "features.psrcc:psrcc": CEPS + [("gamma", opt(0.5, one(-1 / 7, 0.5, -0.3)))] + conv(MEL),
    "features.bfcc:bfcc": CEPS + conv(BARK),
    "features.bfcc:bark_spectrogram": SPEC + conv(BARK),
    "features.gfcc:gfcc": CEPS + conv(ERB),
    "features.gfcc:erb_spectrogram": SPEC + conv(ERB),
    "features.ngcc:ngcc": CEPS + conv(ERB),
    "features.lfcc:lfcc": CEPS,
    "features.lfcc:linear_spectrogram": SPEC,
    "features.pncc:pncc": without(CEPS, "use_energy") + [("power", opt(0.4, one(2, 1)))] + conv(ERB),
    "features.cqcc:cqcc": CQ + [("num_ceps", one(5, 7)), ("dct_type", d_dct), ("lifter", d_lift), ("normalize", d_norm),
                                ("resampling_ratio", opt(0.4, one(1.0, 0.5)))],
    "features.cqcc:cqt_spectrogram": CQ,
    "features.lpc:lpc": [("sig", d_sig), ("fs", d_fs), ("order", d_order), ("pre_emph", d_pre), ("pre_emph_coeff", d_coef), ("window", d_win)],
    "features.lpc:lpcc": [("sig", d_sig), ("fs", d_fs), ("order", d_order), ("pre_emph", d_pre), ("pre_emph_coeff", d_coef),
                          ("window", d_win), ("lifter", d_lift), ("normalize", d_norm)],
    "features.lpc:lpc2lpcc": [("a", arr("noise", one(8, 10), gain=0.001, lay=_lay1)), ("e", arr("pos", 1)), ("nceps", one(10, 12, 14))],
    "features.rplp:plp": PLP,
    "features.rplp:rplp": PLP,
    "features.spfeats:extract_feats": [("sig", d_sig), ("fs", d_fs), ("nfft", opt(0.7, one(128, 256, 512)))],
    "features.spfeats:spectral_centroid": [("fs", d_fs), ("spectrum", SPECTRUM), ("i", opt(0.6, one(1, 2, 3)))],
    "features.spfeats:spectral_skewness": [("sig", d_sig), ("fs", d_fs), ("spectrum", SPECTRUM)],
    "features.spfeats:spectral_kurtosis": [("sig", d_sig), ("fs", d_fs), ("spectrum", SPECTRUM)],
    "features.spfeats:spectral_entropy": [("spectrum", SPECTRUM)],
    "features.spfeats:spectral_spread": [("sig", d_sig), ("fs", d_fs), ("spectrum", SPECTRUM)],
    "features.spfeats:spectral_flatness": [("spectrum", SPECTRUM)],
    "features.spfeats:spectral_rolloff": [("spectrum", SPECTRUM), ("k", opt(0.5, one(0.85, 0.5)))],
    "features.spfeats:spectral_flux": [("spectrum", SPECTRUM), ("p", opt(0.5, one(1, 2, 3)))],
    "features.bfcc:intensity_power_law": [("w", arr("pos", _mat, gain=100.0, lay=_lay2))],
    "features.pncc:medium_time_power_calculation": [("P", arr("pos", _mat, lay=_lay2)), ("M", opt(0.5, one(1, 2, 3)))],
    "features.pncc:asymmetric_lowpass_filtering": [("Q_tilde_in", arr("pos", _mat, lay=_lay2)), ("lm_a", opt(0.4, one(0.999, 0.9))), ("lm_b", opt(0.4, one(0.5, 0.3)))],
    "features.pncc:temporal_masking": [("Q_tilde_0", arr("pos", _mat, lay=_lay2)), ("lam_t", opt(0.4, one(0.85, 0.7))), ("myu_t", opt(0.4, one(0.2, 0.3)))],
    "features.pncc:weight_smoothing": [("R_tilde", arr("pos", _mat, lay=_lay2)), ("Q_tilde", arr("pos", _mat, lay=_lay2)), ("nfilts", d_nfilts), ("N", opt(0.5, one(2, 4)))],
    "features.pncc:mean_power_normalization": [("T", arr("pos", _mat, lay=_lay2)), ("nfilts", lambda r, c, cfg: c.nfilts), ("lam_myu", opt(0.4, one(0.999, 0.9))), ("k", opt(0.4, one(1, 2)))],
    "features.pncc:asymmetric_noise_suppression_with_temporal_masking": [("Q_tilde", arr("pos", _mat, lay=_lay2)), ("threshold", opt(0.4, one(0, 0.1)))],
    # filter banks
    "fbanks.mel_fbanks:mel_filter_banks": BANK + conv(MEL),
    "fbanks.mel_fbanks:inverse_mel_filter_banks": with_high(BANK) + conv(MEL),
    "fbanks.mel_fbanks:mel_filter_banks_helper": BANK + conv(MEL) + [("fb_type", opt(0.6, one("mel", "lin")))],
    "fbanks.linear_fbanks:linear_filter_banks": BANK,
    "fbanks.bark_fbanks:bark_filter_banks": BANK + conv(BARK),
    "fbanks.bark_fbanks:Fm": [("fb", one(1.0, 2.5, 3.2, 4.9, 7.0)), ("fc", one(2.0, 3.0, 4.0))],
    "fbanks.gammatone_fbanks:gammatone_filter_banks": BANK + [("order", opt(0.4, one(4, 3, 2)))] + conv(ERB),
    "fbanks.gammatone_fbanks:generate_center_frequencies": [("min_freq", one(0, 50, 100)), ("max_freq", one(2000, 4000)), ("nfilts", d_nfilts)],
    "fbanks.gammatone_fbanks:compute_gain": [("fcs", arr("inc", 12, gain=100.0)), ("B", arr("inc", 12, gain=50.0)), ("wT", arr("inc", 12, gain=0.1)), ("T", one(1 / 8000, 1 / 16000))],
    # frequencies
    "frequencies.dominant_frequencies:get_dominant_frequencies": [("sig", d_sig), ("fs", d_fs), ("butter_filter", opt(0.6, one(True, False))), ("lower_cutoff", opt(0.5, one(50, 100))),
        ("upper_cutoff", one(1500, 1800)), ("nfft", d_nfft), ("win_len", opt(0.6, one(0.016, 0.02, 0.025))), ("win_hop", opt(0.6, one(0.008, 0.01))), ("win_type", opt(0.6, one(*WIN_TYPES))), ("only_positive", opt(0.5, one(True, False)))],
    "frequencies.fundamental_frequencies:compute_yin": [("sig", d_sig), ("fs", d_fs), ("win_len", one(0.02, 0.025, 0.03)), ("win_hop", opt(0.7, one(0.015, 0.01))), ("low_freq", one(60, 80, 100)), ("high_freq", opt(0.6, one(1000, 1500, 3000))), ("harmonic_threshold", opt(0.6, one(0.1, 0.5, 0.85)))],
    "frequencies.fundamental_frequencies:compute_difference": [("x", arr("noise", lambda r, c, cfg: r.choice([100, 160]), lay=_lay1)), ("tau_max", one(40, 80))],
    "frequencies.fundamental_frequencies:compute_cmnd": [("d_t", arr("pos", 40, lay=_lay1)), ("tau", one(40,))],
    "frequencies.fundamental_frequencies:get_pitch": [("cmdf", arr("pos", 40, lay=_lay1)), ("tau_min", one(3, 5)), ("tau_max", one(30, 40)), ("harmonic_threshold", opt(0.7, one(0.1, 0.3, 0.6)))],
    # utils
    "utils.converters:hz2mel": [("f", either(arr("inc", 10, gain=300.0, lay=_lay1), one(0, 100, 440.5, 1000, 3999))), ("approach", opt(0.6, one(*MEL)))],
    "utils.converters:mel2hz": [("fm", either(arr("inc", 10, gain=100.0, lay=_lay1), one(0, 150.0, 1000, 2595))), ("approach", opt(0.6, one(*MEL)))],
    "utils.converters:hz2bark": [("f", either(arr("inc", 10, gain=300.0, lay=_lay1), one(0, 100, 440.5, 1000, 3999))), ("approach", opt(0.7, one(*(BARK + ["Traunmueller"]))))],
    "utils.converters:bark2hz": [("fb", either(arr("inc", 10, lay=_lay1), one(1.0, 1.5, 5, 12.25, 21), 0.3)), ("approach", opt(0.7, one(*(BARK + ["Traunmueller"]))))],
    "utils.converters:hz2erb": [("f", either(arr("inc", 10, gain=300.0, lay=_lay1), one(0, 100, 440.5, 1000, 3999))), ("approach", opt(0.5, one(*ERB)))],
    "utils.converters:erb2hz": [("fe", either(arr("inc", 10, lay=_lay1), one(0, 1.5, 12, 30.5))), ("approach", opt(0.5, one(*ERB)))],
    "utils.cepstral:normalize_ceps": [("x", arr("noise", _mat, lay=_lay2)), ("normalization_type", opt(0.8, one("mvn", "ms", "vn", "mn")))],
    "utils.cepstral:lifter_ceps": [("ceps", arr("noise", _mat, lay=_lay2)), ("lift", opt(0.8, one(3, 0.7, -7, -1, -2, 0, 22)))],
    "utils.cepstral:deltas": [("x", arr("noise", _mat, lay=_lay2)), ("w", opt(0.6, one(3, 5, 9)))],
    "utils.filters:rasta_filter": [("x", arr("pos", _mat, lay=_lay2))],
    "utils.filters:scale_fbank": [("scale", one("ascendant", "descendant", "constant")), ("nfilts", d_nfilts)],
    "utils.preprocessing:zero_handling": [("x", arr("half", _mat, lay=_lay2))],
    "utils.preprocessing:pre_emphasis": [("sig", d_sig), ("pre_emph_coeff", d_coef)],
    "utils.preprocessing:stride_trick": [("a", d_sig), ("stride_length", one(64, 100)), ("stride_step", one(32, 40))],
    "utils.preprocessing:framing": [("sig", d_sig), ("fs", d_fs), ("win_len", opt(0.7, one(0.016, 0.02, 0.025))), ("win_hop", opt(0.7, one(0.008, 0.01)))],
    "utils.preprocessing:windowing": [("frames", arr("noise", lambda r, c, cfg: [c.frames, 64], lay=_lay2)), ("frame_len", one(64,)), ("win_type", opt(0.8, one(*WIN_TYPES)))],
    "utils.spectral:compute_constant_qtransform": [("frames", arr("noise", lambda r, c, cfg: [2, 200], lay=_lay2)), ("fs", d_fs), ("low_freq", d_low), ("high_freq", d_high), ("nfft", one(256,)),
        ("number_of_octaves", one(2, 3)), ("number_of_bins_per_octave", one(4, 6)), ("win_type", opt(0.6, one(*WIN_TYPES))), ("spectral_threshold", opt(0.4, one(0.0054, 0.01))), ("f0", opt(0.6, one(120, 200))), ("q_rate", opt(0.4, one(1.0, 0.5)))],
    "utils.vis:tick_function": [("X", arr("inc", 6, gain=100.0)), ("fb_type", one("mel", "bark", "gamma", "lin"))],
}

# extractors and banks carry most of what users rely on
MAIN = [f for f in API if f.split(".")[0] in ("features", "fbanks", "frequencies") and f.split(":")[1] in (
    "mfcc imfcc mel_spectrogram msrcc psrcc bfcc bark_spectrogram gfcc erb_spectrogram ngcc lfcc linear_spectrogram pncc cqcc "
    "cqt_spectrogram lpc lpcc plp rplp extract_feats mel_filter_banks inverse_mel_filter_banks linear_filter_banks bark_filter_banks "
    "gammatone_filter_banks get_dominant_frequencies compute_yin").split()]
HELPERS = [f for f in API if f not in MAIN]

INVALID = {
    "num_ceps": [99], "low_freq": [-1, -5], "high_freq": [1e6], "scale": ["bogus"], "normalize": ["bogus"],
    "window": [{"$": "win", "v": [0.01, 0.02, "hamming"]}, {"$": "win", "v": [0.02, 0.01, "bogus"]}, {"$": "win", "v": [0.02, -0.01, "hamming"]}, {"$": "win", "v": [0.02, 0.0, "hamming"]}, {"$": "win", "v": [0.3, -0.002, "hanning"]}, {"$": "win", "v": [-0.01, -0.02, "hamming"]}], "dct_type": [9, 0, -1],
    "nfft": ["x", 0], "nfilts": [2, "x"], "conversion_approach": ["bogus"], "order": [99, 0, -2], "win_len": [0.001, 0.3, -0.01, 0], "win_hop": [-0.01, -0.002, 0, 0.5], "win_type": ["bogus"], "stride_length": [5000, -3, 0], "stride_step": [-1, -40, 0], "tau_max": [-3, 0, 10**5], "tau_min": [-40, 10**5],
    "tau": [0, -2], "frame_len": [0, -1], "w": [0, -3], "M": [-1], "N": [-2], "nceps": [0, -1, 40], "harmonic_threshold": [-1],
    "sig": [{"$": "arr", "k": "noise", "n": 20, "s": 1}, {"$": "arr", "k": "noise", "n": [900, 2], "s": 1}, None], "approach": ["bogus"], "a": [{"$": "arr", "k": "noise", "n": [500, 2], "s": 1}, {"$": "arr", "k": "noise", "n": 1, "s": 1}],
    "spectrum": [None], "fs": [0, "x"], "normalization_type": ["bogus"], "fbanks": [{"$": "arr", "k": "pos", "n": [3, 5], "s": 1}],
}


def gen_call(rng, f, ctx):
    a = {}
    for name, dom in API[f]:
        v = dom(rng, ctx, a)
        if v != MISSING:
            a[name] = v
    return {"f": f, "a": a}


EXTREME = {
    "order": [1, 2, 30, 60, 99, 150], "num_ceps": [1, 2, 13, 24, 30], "nceps": [1, 2, 60], "nfft": [1, 2, 3, 16, 33, 1000, 1023], "nfilts": [1, 2, 3, 5, 60], "fs": [100, 1000, 22050, 48000, 96000, 8000.0, 11025.5],
    "window": [{"$": "win", "v": [0.002, 0.001, "hamming"]}, {"$": "win", "v": [0.0011, 0.0006, "hanning"]}, {"$": "win", "v": [0.004, 0.004, "kaiser"]}, {"$": "win", "v": [0.06, 0.03, "blackman"]}, {"$": "win", "v": [0.02, 0.0005, "bartlet"]}],
    "win_len": [0.0011, 0.003, 0.06], "win_hop": [0.0006, 0.002, 0.02], "M": [0, 5, 10, 100], "N": [0, 1, 9, 50], "w": [1, 2, 21, 99], "lifter": [0.001, 9.99, 10, -100, -30], "lift": [0.001, 9.99, 10, -100, -30],
    "low_freq": [20, 499.9, 1999, 3999], "high_freq": [30, 500, 600.5], "pre_emph_coeff": [0, 1, -1, 2], "dct_type": [1, 4], "power": [0, 3, 0.5], "gamma": [0, 1, 2], "f0": [20, 1000, 5000], "q_rate": [0.01, 0.1, 3],
    "number_of_octaves": [1, 7], "number_of_bins_per_octave": [1, 24], "spectral_threshold": [0, 1], "resampling_ratio": [0.05, 2.0], "harmonic_threshold": [0, 1e9], "threshold": [1, 1e9], "lam_t": [0, 1], "lam_myu": [0, 1],
    "stride_length": [1, 2, 200, 10000], "stride_step": [1, 3, 500], "tau_max": [2, 5, 200], "tau_min": [0, 1, 100], "tau": [2, 10, 60], "lower_cutoff": [1, 1000], "upper_cutoff": [60, 3000], "k": [0, 1, 5], "i": [0, 8], "p": [1, 8],
    "fb": [-5, 0.0, 1e9, float("nan")], "fc": [0.0, 30], "f": [0.0, 1e-9, 5e4, -3.0], "T": [1.0],
    "only_positive": [False], "use_energy": [True], "frame_len": [1, 63, 65],
}


def extreme(rng, call):
    """One or two parameters at unusual, mostly still legal values."""
    c = copy.deepcopy(call)
    names = [n for n, _ in API[call["f"]] if n in EXTREME]
    rng.shuffle(names)
    for n in names[:rng.choice([1, 1, 2, 3])]:
        c["a"][n] = copy.deepcopy(rng.choice(EXTREME[n]))
    if "fbanks" in c["a"]:
        c["a"]["fbanks"] = fbanks_for(rng, c["a"])
    return c


def invalidate(rng, call):
    """A neighbour the function should reject (or trip over)."""
    c = copy.deepcopy(call)
    names = [n for n, _ in API[call["f"]] if n in INVALID]
    rng.shuffle(names)
    for n in names[:rng.choice([1, 1, 1, 2, 2])]:
        old = c["a"].get(n)
        c["a"][n] = v = copy.deepcopy(rng.choice(INVALID[n]))
        if isinstance(v, dict) and isinstance(old, dict) and v.get("$") == old.get("$") == "arr" and not isinstance(v["n"], list) and rng.random() < 0.6:
            v.update({k: old[k] for k in ("lay", "dt", "k") if k in old})
    return c


def neighbours(rng, call, ctx, per_param=1):
    """Calls differing from `call` in exactly one parameter (an array: in content, or by a value)."""
    out = []
    f = call["f"]
    for name, dom in API[f]:
        cur = call["a"].get(name, MISSING)
        got = 0
        for _ in range(12):
            v = vary(rng, name, dom, cur, call, ctx)
            if v is None or v == cur:
                continue
            c = copy.deepcopy(call)
            if v == MISSING:
                c["a"].pop(name, None)
            else:
                c["a"][name] = v
            if name in ("nfft", "nfilts") and "fbanks" in c["a"]:
                c["a"]["fbanks"] = fbanks_for(rng, c["a"])
            out.append(c)
            got += 1
            if got >= per_param:
                break
    return out


def vary(rng, name, dom, cur, call, ctx):
    if call["f"].startswith("utils.converters") and rng.random() < 0.5:
        return dom(rng, ctx, call["a"])
    if isinstance(cur, dict) and cur.get("$") == "arr":
        c = copy.deepcopy(cur)
        w = rng.random()
        if w < 0.12:
            c["edit"] = rng.randrange(5, 10000)
        elif w < 0.2:
            c["swap"] = rng.randrange(5, 10000)
        elif w < 0.45:
            c["s"] = (c.get("s", 0) + 1 + rng.randrange(50)) % 10007   # same size, other content
        elif w < 0.55:
            c["k"] = rng.choice(["noise", "tone", "half", "zeros"]) if c["k"] in SIG_KINDS else c["k"]
            c["s"] = c.get("s", 0) + 1
        elif w < 0.7:
            c["gain"] = rng.choice([2.0, 0.5, 1.001, -1.0])
        elif w < 0.85:
            c["dt"] = rng.choice(["float64", "float32", "int16"])
        else:
            if isinstance(c["n"], int) and name in ("sig",):
                c["n"] += rng.choice([1, 7, 40])
            else:
                c["s"] = c.get("s", 0) + 3
        return c
    if isinstance(cur, dict) and cur.get("$") == "win":
        v = list(cur["v"])
        i = rng.randrange(3)
        if i == 2:
            v[2] = rng.choice(WIN_TYPES)
        else:
            v[i] = v[i] * (1.25 if i == 0 else 0.75)
        return {"$": "win", "v": v}
    if name == "fs":
        return rng.choice([x for x in (ctx.fs, ctx.fs // 2 + 2000, 8000, 11025, 1000) if x != cur])
    if name in ("low_freq", "high_freq", "lower_cutoff", "upper_cutoff") and isinstance(cur, (int, float)) and rng.random() < 0.6:
        d = rng.choice([0.3, -0.3, 1, -1, 50, -50, 0.001])
        return max(0, cur + d)
    if isinstance(cur, float) and rng.random() < 0.4:
        return cur * rng.choice([1.0001, 0.9, 1.1])
    if name in ("nfft", "nfilts", "num_ceps") and isinstance(cur, int) and rng.random() < 0.5:
        return max(1, cur + rng.choice([-1, 1, -2, 2]))
    return dom(rng, ctx, call["a"])
