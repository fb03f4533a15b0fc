#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
NOTE = {
    "C01": ("orbit walks generated by TLC replayed into the real bijections, recorded orbits validated against spec/Orbit.tla",
            "Every bijection of a catalogue of about 270 configurations is walked along TLC-generated words; the catalogue's parameters and points are sampled, the walk alphabet and the position algebra are exhaustive within the word length. Floating point values are compared in fixed point (2^-20)."),
    "C02": ("recorded log-density changes validated against Jacobian determinants by spec/VolTrace.tla (exact integer determinants for dyadic layers)",
            "Jacobians come from differentiating the applied map itself; points and parameters are sampled. Dyadic linear layers are decided exactly by TLC."),
    "C03": ("composition programs generated by TLC from spec/Compose.tla, evaluated exactly in the specification and replayed into the real combinators",
            "All programs within the stated depth and leaf alphabet, exact integer points and exact multiples of log 2."),
    "C04": ("mask/coupling state machine spec/Mask.tla, TLC-enumerated masks replayed into BinaryMask and GeneralCouplingLayer",
            "All boolean masks and index tuples on small event shapes; larger ones sampled."),
    "C05": ("representation graph spec/Recon.tla, TLC-generated conversion paths replayed into ModuleReconstructor, traces validated",
            "All conversion paths within the stated length over a set of module kinds."),
    "C06": ("completion oracle spec/ShapeInfo.tla over all partial descriptors, replayed into ShapeInfo",
            "All descriptor subsets over small shapes (exhaustive), results decided by TLC."),
    "C07": ("sample/score/copy history machine spec/Dist.tla; its words replayed into every real distribution, and recorded histories with exact densities validated by spec/DistTrace.tla",
            "Points are sampled; densities are compared with the definitions in fixed point; sampling is bound to scoring through the library's own returned density, known keys and moment bounds."),
    "C08": ("mixture machine spec/Mixture.tla (component choice, weighted sum, nesting), TLC-generated cases (MCMix) replayed; recorded densities and draws validated by spec/MixTrace.tla and DistTrace.tla",
            "Densities are summed by TLC in 22-bit fixed point relative to the nearest component; frequencies are six-sigma bounds at fixed keys."),
    "C09": ("sampler state machine spec/Buffered.tla; TLC-generated request histories replayed, recorded histories validated",
            "All request words up to length 2n+3 for small buffers in the model; quick replays a sample of them, thorough all."),
    "C10": ("Metropolis-Hastings state machine spec/IMH.tla; TLC-generated schedules replayed as ladder-measured acceptance levels, recorded chains validated",
            "Accept decisions recomputed by TLC from recorded densities and the sampler's own uniform draws."),
    "C11": ("index algebra of real FFTs in spec/Modes.tla, checked for all small shapes, compared with FourierMeta and FourierData",
            "All lattice shapes up to the bound exhaustively; integer fields make sums exact."),
    "C12": ("lattice permutation group in spec/Lattice.tla; orbits computed by TLC, kernels and equivariance of the real convolutions validated",
            "All kernel shapes within the bound; integer inputs make the convolutions exact."),
    "C13": ("lattice symmetry group acting on Q8-valued gauge fields in spec/Gauge.tla; real transformations validated on the exact group",
            "The quaternion group embedded in SU(2) gives exact integer link products; relations of the symmetry group are exhaustive."),
    "C14": ("integer lattice sums in spec/Observables.tla recomputed by TLC for recorded integer configurations",
            "Exact for integer fields and couplings; configurations are sampled."),
   "C15": ("stage-by-stage stepper state machine spec/Stepper.tla over integers (tableaus with a common denominator, unipotent Lie steps); TLC schedules replayed into odeint_rk4, crouch_grossmann and DiffraxConfig",
            "Final states compared exactly with TLC's run of the same erratic field; adjoints exact on nilpotent fields, to the order of the method on Lie groups."),
    "C16": ("call-sequence machine spec/MCFlow.tla on top of spec/Stepper.tla; TLC call sequences replayed into the flows, fields judged by spec/FlowTrace.tla",
            "Exact on erratic, polynomial and integer convolutional fields; smooth flows in fixed point."),
    "C17": ("jets of trace words over Gaussian-integer matrices, group walks, Weyl torus integrals and Haar character averages in spec/Lie.tla; real derivatives, algebra operations, angles and Haar samples judged by spec/LieTrace.tla",
            "First and second derivatives exact on words the model enumerates; Haar averages statistical with six-sigma bounds at fixed keys."),
    "C18": ("exact rational chains and integer-knot splines built by the state machine spec/MCMono.tla, replayed into the real maps; order, range, root and symmetry traces judged by spec/MonoTrace.tla",
            "Exact values at logarithms of fractions and for every generated spline; elsewhere order is judged on ranks of sampled, clustered arguments."),
    "C19": ("conversion machine spec/Bridge.tla (words of wraps between the two libraries); TLC-generated words (MCBridge) replayed through the real wrappers, recorded traces validated by spec/BridgeTrace.tla and DistTrace.tla",
            "Words wholly conditional or wholly unconditional; forward-only flowjax maps are judged forward only."),
    "C20": ("machine of batch layouts, execution modes and copies spec/Exec.tla; TLC-generated words (MCExec) replayed into the whole catalogue of bijections, flows and distributions, recorded evaluations validated by spec/ExecTrace.tla",
            "Every evaluation is compared, point by point, with the module's own result on that point alone; modules, points and words are sampled, the layout algebra is exhaustive within the bound."),
    "C21": ("selection machine spec/Freeze.tla; TLC-generated module programs and histories (MCFreeze) replayed into nested modules, filters, optimisers and noise, validated by spec/FreezeTrace.tla",
            "All programs and histories within the bound in the model; random longer ones replayed. Parameters carry integers that identify them, so every change is exact."),
    "C22": ("sample-set and sliding-window machine spec/Diag.tla; TLC-generated histories (MCDiag) replayed into the diagnostics, values recomputed by spec/DiagTrace.tla",
            "Exact rational values for weights that are integers times powers of two; bounds and invariances on sampled real inputs of two precisions."),
    "C23": ("embedding and network machines spec/Embed.tla and spec/Nets.tla; TLC-generated configurations (MCEmbed, MCNets) replayed, values recomputed by spec/EmbedTrace.tla",
            "Exact table-based values on grids of arguments, exact integers for networks with integer weights; derivatives judged on polynomial features exactly, elsewhere in fixed point."),
}
props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
NA = {}
p = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for d in props:
    i = d["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=T + NOTE[i][0], level="model_checking",
                           level_note=NOTE[i][1] + " Trusts TLC, the JVM and the Python observer."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check for this property is not built yet")))
m = dict(version=1, setup_cmd="python3 -c \"import os,sys; sys.exit(0 if os.path.exists('/opt/veriftools/tla/tla2tools.jar') and os.path.exists('/opt/venv/bin/python') else 1)\"",
         checks=checks, not_applicable=na,
         notes="All checks observe the public API of bijx through /verif/check.py; no hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
