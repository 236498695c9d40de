"""C01 unit / figure-of-merit conversions."""
import math

from engine.run import Scenario

BOUNDS = ("all reals: dB values in [-300,300], magnitudes/powers/voltages/loads/rates in [1e-9,1e9] (symbolic), resolutions 1..24 "
          "(symbolic integer), OSR in [1,1e6], scalars and 2-element arrays")
OUTSIDE = "arguments outside those ranges; floating-point rounding"
ASSUMPTIONS = ["log10/10**x are uninterpreted functions with the inverse, product and monotonicity laws of the logarithm"]

U = "adctoolbox.fundamentals.units:"
M = "adctoolbox.fundamentals.metrics:"
T = "adctoolbox:"
LO, HI = 1e-9, 1e9


def pos(s, n):
    return s.real(n, LO, HI)


def inverse_db(s, f, g, per_decade):
    """g(f(x)) = x, f(g(y)) = y, f(1)=0, f(10 y) = f(y) + per_decade; scalar and array"""
    to_db, from_db = s.get(f), s.get(g)
    y = pos(s, "y")
    x = s.real("x", -300, 300)
    s.eq(from_db(to_db(y)), y, "from(to(y))=y", scale=1 + y)
    s.eq(to_db(from_db(x)), x, "to(from(x))=x")
    s.eq(to_db(10 * y), to_db(y) + per_decade, "decade law")
    s.eq(to_db(1.0), 0.0, "unit is 0 dB")
    s.eq(from_db(0.0), 1.0, "0 dB is unit")
    s.eq(from_db(x + per_decade), 10 * from_db(x), "inverse decade law", scale=s.abs(from_db(x)) + 1e-30)
    a = s.np.array([y, 2 * y])
    d = to_db(a)
    s.eq(d[0], to_db(y), "array elementwise")
    s.eq(d[1], to_db(2 * y), "array elementwise")
    e = from_db(s.np.array([x, x / 2]))
    s.eq(e[1], from_db(x / 2), "array elementwise inverse", scale=s.abs(from_db(x / 2)) + 1e-30)


def lsb(s):
    to_v, to_l = s.get(U + "lsb_to_volts"), s.get(U + "volts_to_lsb")
    k, vref = s.real("k", -1e6, 1e6), pos(s, "vref")
    nb = s.int("nb", 1, 24)
    n = s.conc(nb)
    v = to_v(k, vref, n)
    s.eq(v * 2 ** n, k * vref, "LSB = vref/2^N", scale=(1 + s.abs(k)) * vref * 2 ** n)
    s.eq(to_l(v, vref, n), k, "volts_to_lsb(lsb_to_volts(k))=k", scale=1 + s.abs(k))
    w = s.real("w", -1e6, 1e6)
    s.eq(to_v(to_l(w, vref, n), vref, n), w, "lsb_to_volts(volts_to_lsb(v))=v", scale=1 + s.abs(w))
    s.eq(to_v(s.np.array([k, 0.0]), vref, n)[0], v, "array", scale=(1 + s.abs(k)) * vref)


def binfreq(s, n_fft):
    b2f, f2b = s.get(T + "bin_to_freq"), s.get(T + "freq_to_bin")
    k = s.int("k", -3 * n_fft, 3 * n_fft)
    fs = pos(s, "fs")
    f = b2f(k, fs, n_fft)
    s.eq(f * n_fft, k * fs, "f = bin fs/N", scale=fs * n_fft)
    s.true(f2b(f, fs, n_fft) == k, "freq_to_bin(bin_to_freq(k)) = k")
    r = s.real("r", -2, 2)              # frequency as a fraction of fs
    b = f2b(r * fs, fs, n_fft)
    s.le(s.abs(b - r * n_fft), 0.5, "nearest bin")
    s.true(b == s.np.floor(b), "integer bin")


def enob(s):
    a, b = s.get(T + "snr_to_enob"), s.get(T + "enob_to_snr")
    x = s.real("x", -300, 300)
    s.eq(b(a(x)), x, "inverse")
    s.eq(a(b(x)), x, "inverse2", scale=1 + s.abs(x))
    s.eq(b(x + 1) - b(x), 6.02, "6.02 dB per bit")
    s.eq(a(1.76), 0.0, "1.76 dB is 0 bit")
    s.eq(b(0.0), 1.76, "0 bit is 1.76 dB")


def nsd(s, which, kw):
    a, b = s.get(which + "snr_to_nsd"), s.get(which + "nsd_to_snr")
    snr, lvl = s.real("snr", -200, 200), s.real("lvl", -120, 20)
    fs = pos(s, "fs")
    osr = s.real("osr", 1, 1e6)
    args = {kw: lvl, "osr": osr}
    n = a(snr, fs, **args)
    s.eq(n, lvl - snr - 10 * s.np.log10(fs / (2 * osr)), "density law", scale=100)
    s.eq(b(n, fs, **args), snr, "nsd_to_snr(snr_to_nsd(x)) = x", scale=100)
    s.eq(a(b(snr, fs, **args), fs, **args), snr, "snr_to_nsd(nsd_to_snr(x)) = x", scale=100)
    s.eq(a(snr, fs), -snr - 10 * s.np.log10(fs / 2), "defaults: 0 dBFS, OSR 1", scale=100)
    s.eq(b(n, fs), -n - 10 * s.np.log10(fs / 2), "defaults of the inverse", scale=100)
    v = a(s.np.array([snr, snr + 3]), fs, **args)
    s.eq(v, [n, n - 3], "array", scale=100)
    w = b(s.np.array([n, n - 3]), fs, **args)
    s.eq(w, [snr, snr + 3], "array inverse", scale=100)


def dbm(s):
    to_v, to_dbm = s.get(T + "dbm_to_vrms"), s.get(T + "vrms_to_dbm")
    to_mw, mw_dbm = s.get(T + "dbm_to_mw"), s.get(T + "mw_to_dbm")
    p, z, v = s.real("p", -200, 100), pos(s, "z"), pos(s, "v")
    vr = to_v(p, z)
    s.eq(vr * vr * 1000, z * to_mw(p), "Vrms^2/Z = P", scale=z * to_mw(p))
    s.ge(vr, 0.0, "Vrms not negative")
    s.eq(to_dbm(vr, z), p, "vrms_to_dbm(dbm_to_vrms(p)) = p")
    s.eq(to_v(to_dbm(v, z), z), v, "dbm_to_vrms(vrms_to_dbm(v)) = v", scale=v)
    s.eq(mw_dbm(to_mw(p)), p, "mw_to_dbm(dbm_to_mw(p)) = p")
    s.eq(to_mw(mw_dbm(v)), v, "dbm_to_mw(mw_to_dbm(P)) = P", scale=v)
    s.eq(to_mw(0.0), 1.0, "0 dBm = 1 mW")
    s.eq(to_dbm(v), to_dbm(v, 50), "default load 50 ohm")
    s.eq(to_v(p), to_v(p, 50), "default load 50 ohm", scale=to_v(p))


def sine_power(s):
    f = s.get(T + "sine_amplitude_to_power")
    a, z = s.real("a", -1e3, 1e3), pos(s, "z")
    s.eq(f(a, z) * 2 * z, a * a, "A^2/(2Z)", scale=1e-3 + a * a)
    s.eq(f(a) * 100, a * a, "A^2/100 at 50 ohm", scale=1e-3 + a * a)


def foms(s):
    p, fs, e = pos(s, "p"), pos(s, "fs"), s.real("enob", 0, 24)
    w = s.get(T + "calculate_walden_fom")(p, fs, e)
    s.eq(w * fs * 2 ** e, p, "Walden P/(fs 2^ENOB)", scale=p)
    w1 = s.get(T + "calculate_walden_fom")(p, fs, e + 1)
    s.eq(2 * w1, w, "Walden halves per bit", scale=w)
    sn, bw = s.real("sndr", -50, 200), pos(s, "bw")
    f = s.get(T + "calculate_schreier_fom")(p, sn, bw)
    s.eq(f, sn + 10 * s.np.log10(bw) - 10 * s.np.log10(p), "Schreier", scale=100)


def ktc(s):
    f = s.get(T + "calculate_thermal_noise_limit")
    c, v = s.real("c", 1e-6, 1e6), s.real("v", 1e-3, 1e3)
    kt = 1.38e-23 * 300
    want = 10 * s.np.log10(v) * 2 + 10 * s.np.log10(c) + 10 * math.log10(1e-12 / (8 * kt))
    s.eq(f(c, v), want, "kT/C limit", scale=10)
    s.eq(f(c), want - 20 * s.np.log10(v), "1 V default", scale=10)
    s.eq(f(4 * c, v) - f(c, v), 10 * math.log10(4), "6.02 dB per 4x C", scale=10)


def jit(s):
    f = s.get(T + "calculate_jitter_limit")
    fin, j = pos(s, "fin"), s.real("j", 1e-18, 1)
    s.eq(f(fin, j), -20 * s.np.log10(fin) - 20 * s.np.log10(j) - 20 * math.log10(2 * math.pi), "-20log(2 pi f t)", scale=100)


def ampsnr(s, arr):
    f = s.get(T + "amplitudes_to_snr")
    a, n = s.real("a", 1e-6, 1e6), s.real("n", 1e-6, 1e6)
    osr = s.real("osr", 1, 1e6)
    if arr:
        A, Nn = s.np.array([a, 2 * a]), s.np.array([n, n])
        r, ps, pn = f(A, Nn, osr=osr, return_power=True)
        s.eq(ps, [a * a / 2, 2 * a * a], "signal power", scale=1 + a * a)
        s.eq(pn, [n * n, n * n], "noise power", scale=1 + n * n)
        base = 20 * s.np.log10(a) - 20 * s.np.log10(n) - 10 * math.log10(2)
        s.eq(r[0], base + 10 * s.np.log10(osr), "SNR law", scale=100)
        s.eq(r[1], base + 10 * s.np.log10(osr) + 20 * math.log10(2), "SNR law", scale=100)
        r0 = f(s.np.array([a, a]), s.np.array([n, 0.0]))
        s.eq(r0[0], base, "SNR law beside a noiseless element", scale=100)
        s.true(bool(r0[1] == math.inf), "no noise: infinite SNR")
    else:
        r, ps, pn = f(a, n, osr=osr, return_power=True)
        base = 20 * s.np.log10(a) - 20 * s.np.log10(n) - 10 * math.log10(2)
        s.eq(r, base + 10 * s.np.log10(osr), "SNR law with OSR", scale=100)
        s.eq(f(a, n), base, "SNR law", scale=100)
        s.eq(ps * 2, a * a, "signal power", scale=1 + a * a)
        s.eq(pn, n * n, "noise power", scale=1 + n * n)
        s.true(bool(f(a, 0.0) == math.inf), "no noise: infinite SNR")


def scenarios():
    r = [
        Scenario("mag_db", inverse_db, f=T + "mag_to_db", g=T + "db_to_mag", per_decade=20),
        Scenario("power_db", inverse_db, f=T + "power_to_db", g=T + "db_to_power", per_decade=10),
        Scenario("lsb_volts", lsb),
        Scenario("enob", enob),
        Scenario("nsd_units", nsd, which=U, kw="signal_pwr_dbfs"),
        Scenario("nsd_snr", nsd, which="adctoolbox.fundamentals.snr_nsd:", kw="psignal_dbfs"),
        Scenario("nsd_top", nsd, which=T, kw="psignal_dbfs"),
        Scenario("dbm", dbm), Scenario("sine_power", sine_power), Scenario("foms", foms), Scenario("ktc", ktc),
        Scenario("jitter", jit), Scenario("amp_snr", ampsnr, arr=False), Scenario("amp_snr_array", ampsnr, arr=True),
    ]
    for n in (8, 9, 1024):
        r.append(Scenario(f"bin_freq_{n}", binfreq, n_fft=n))
    return r
