"""Writes DESIGN.md: tools/design_head.md, one section per property (bounds taken from the checks), tools/design_tail.md."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(ROOT), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
# id: (specification and oracle, why tests cannot settle it, seconds)
T = {
    "C01": ("Inverse pairs composed in both orders give the argument back; scaling laws and closed forms are stated with log/exp as atoms related by their functional equations.", "Tests compare a few numbers; an inverse law is over the whole domain.", 5),
    "C02": ("Range, periodicity, mirror and identity of the fold, stated with a symbolic integer number of periods.", "Tests use integer bins of even lengths; fractional bins and odd lengths hid a defect.", 10),
    "C03": ("The admissible bins within the radius are listed by definition (coprime, odd, positive); the chosen one must be no farther from the symbolic target than any of them.", "Nearest-with-constraints has ties and gaps only specific targets reach.", 45),
    "C04": ("Nodal charge equations of the capacitor network assembled independently and solved by Cramer's rule; compared as rational functions of all capacitances.", "Tests pin ratios of a few arrays.", 10),
    "C05": ("Greedy decision rule replayed on symbolic inputs, weights and noise draws; reconstruction error and monotonicity bounds.", "Each threshold is a boundary in the input space.", 30),
    "C06": ("Closed form of the multiplied weights over symbolic weights, sigma, unit counts and draws.", "Random draws are fixed by seeds in tests.", 10),
    "C07": ("Grid membership, error below one LSB, clipping and monotonicity on symbolic samples; noise shaping as the convolution of the quantiser's own error.", "Range ends and code boundaries are measure-zero for sampling.", 15),
    "C08": ("One law per impairment on symbolic samples, strengths and draws, plus the zero-strength identity.", "Tests look at spectra of one tone.", 10),
    "C09": ("Index law and both compositions on symbolic samples.", "Shape mix-ups are invisible for symmetric data.", 5),
    "C10": ("Linearity, DC gain, circular/zero-padded shift, shift theorem per tone, Lagrange exactness on symbolic polynomials and symbolic delay.", "Exactness over all polynomials and delays.", 25),
    "C11": ("The mismatches are applied to symbolic sequences, the stream is calibrated and compared with the original (or the separately delayed channels).", "Inverse law over all parameters.", 20),
    "C12": ("Parameters put into a symbolic sine capture must come back; averages always one and zero.", "Phase wrap and channel order need specific phases.", 25),
    "C13": ("Spur list against the DFT definition over symbolic channel offsets, gains, amplitude, rate and input frequency.", "Fold positions change with every input frequency.", 90),
    "C14": ("A capture is synthesised from a symbolic power per bin; every metric is recomputed from set-based bin accounting (signal, harmonics, DC, out of band).", "Which bin belongs to what depends on inequalities between bins that random data rarely exercises.", 170),
    "C15": ("Calibrated level of a sine at each bin/phase/window; offset, polarity, scale and layout changes of a symbolic capture leave every metric equal.", "Invariance over all captures.", 70),
    "C16": ("Both routines run on the same symbolic capture and must agree.", "Two implementations drift apart in corner bins.", 150),
    "C17": ("Averages of symbolic runs against the per-run spectra; order, repetition, dead runs, phase alignment, triangle inequality.", "Order and dead-run handling need particular run lists.", 20),
    "C18": ("Each DFT component of a symbolic record is either kept or removed according to the rounded symbolic band edges.", "Edges near half bins and odd lengths.", 10),
    "C19": ("Prefix sums of a symbolic error spectrum; order of the request; monotonicity.", "Depends on order and band edges.", 15),
    "C20": ("Histogram of symbolic codes recounted; DNL, INL, baselines (closed-form line fit), missing codes and extremes recomputed.", "Every histogram, not the ideal ramp.", 110),
    "C21": ("Histogram of symbolic codes with the cosine of the cumulative count as a monotone table; invariants of DNL/INL.", "Invariance over all captures.", 15),
    "C22": ("Residual orthogonal to the design columns, report self-consistent in every mode, exact recovery of pure sines, frequency step equal to the fitted derivative coefficient.", "Optimality is a statement about all alternatives.", 25),
    "C23": ("Exact split, orthogonality and recovery on symbolic samples.", "As above.", 15),
    "C24": ("Samples and fit symbolic; each bin's membership, count, mean and RMS recomputed.", "Bin edges and clipping boundaries.", 40),
    "C25": ("Lagged products, histogram scale and the fitted cubic recomputed from symbolic errors and coefficients.", "Identities over all errors.", 60),
    "C26": ("Bit matrices with symbolic entries; the least-squares solution is a vector of unknowns constrained by its normal equations; every report is compared with the matrix model.", "Several captures, dead or duplicated bits interact with scaling and ranks.", 110),
    "C27": ("As C26 with the frequency-derivative column; exact data return their frequency and weights; the lite routine; rejections.", "The wrong coefficient still converges on the tested captures.", 170),
    "C28": ("Counts, residues, partial sums, ratios and the first three-fold drop recomputed from symbolic bits, weights, signs and orders.", "Ties at 0 and 1, several drops, signs and orders.", 70),
    "C29": ("The outcome (accept, error, warning) of each path must be equivalent to the stated condition over the symbolic contents.", "Acceptance is an equivalence, tests try single bad examples.", 25),
    "C30": ("The installer's source runs over a model file system whose entries have symbolic kinds; every changing operation is recorded with the place where it takes effect.", "All combinations of entry kinds, flags and names.", 70),
    "C31": ("Calibration and spectrum analysis are replaced by recording stand-ins; the k-th figure must be taken from the first k bit columns times the symbolic weights returned for them; each compatibility call is compared with the function it stands for.", "Tests see only the final figures of one capture.", 10),
}


def main():
    props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
    out = [(ROOT / "tools/design_head.md").read_text()]
    for p in props:
        i = p["id"]
        m = importlib.import_module("checks." + i.lower())
        n = m.scenarios()
        q = sum(s.tier == "quick" for s in n)
        spec, why, cost = T[i]
        out.append(f"### {i} {p['title']}\n\n- Decided by: {spec}\n- Bounds: {m.BOUNDS}.\n- Outside: {m.OUTSIDE}.\n"
                   f"- Cost: {q} scenarios in the quick tier{f', {len(n) - q} more in the thorough tier' if len(n) > q else ''}, about {cost} s on 8 cores.\n"
                   f"- Beyond tests: {why}\n\n")
    out.append((ROOT / "tools/design_tail.md").read_text())
    (ROOT / "DESIGN.md").write_text("".join(out))


main()
