#!/usr/bin/env python3
"""Regenerates known_findings.json (run by hand; checks never write it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject prefix of the fix commit -> (properties, what failed)
FIX = [
 ("TransformerPipeline accepts a tuple", "C01 C06", "TransformerPipeline((t1, t2)) with a tuple of transformers raised instead of building the pipeline its documentation describes"),
 ("TransformerPipeline.load() restores", "C24", "a pipeline without a name was loaded with the name 'None' in HDF5 form, differing from the saved object"),
 ("ShiftScaleTransformer.inverse_transform(locs) with", "C01", "inverse_transform(locs=...) with byrow=True and scaling=None failed"),
 ("ScaleTransformer.load() keeps", "C24 C01", "a length-1 array scaler was loaded as a scalar and then behaved differently"),
 ("ShiftTransformer.transform_ddts() raises", "C03 C29", "transform_ddts() before training raised an undocumented error kind"),
 ("method_of_snapshots() keeps", "C08", "the smallest eigenvalue was always discarded (treated as noise), losing a mode of full-rank data"),
 ("PODBasis residual_energy", "C09", "residual_energy / projection_error criteria chose r one too large"),
 ("PODBasis without right", "C24", "PODBasis without right singular vectors could not be saved"),
 ("PODBasis.save()/load() preserve", "C24", "load() restored the maximal instead of the current reduced dimension"),
 ("PolynomialLifter does not truncate", "C04", "PolynomialLifter(0.5) truncated the order to an integer"),
 ("PolynomialLifter.lift_ddts() is zero", "C04", "lift_ddts() gave NaN for order 0 where the state is zero"),
 ("ddt_uniform() does not truncate", "C10", "ddt_uniform() truncated estimates to integers for integer states"),
 ("hdf5_loadhandle raises", "C25", "exceptions without arguments raised in hdf5_loadhandle surfaced as IndexError"),
 ("TruncatedSVDSolver.fit() applies", "C12", "refitting kept the number of modes clipped by earlier data"),
 ("TruncatedSVDSolver with num_svdmodes=None", "C24", "TruncatedSVDSolver(None) could not be saved/loaded"),
 ("operators with sparse entries can be saved", "C24", "operators with sparse entries could not be saved and loaded"),
 ("OperatorPosterior.rvs()", "C23", "draws for given covariances were malformed"),
 ("InterpModel.fit() subtracts", "C18", "known operators were subtracted twice / inferred ones overwritten"),
 ("parametric models with a known interp", "C18", "fit() raised when an interpolatory operator was known"),
 ("InterpModel.copy() preserves", "C20", "the copy had a default solver"),
 ("ConstantOperator.apply() does not", "C14", "float constants truncated for integer states"),
 ("regularization selection resets", "C22", "the first fit of a search used a leftover regularizer"),
 ("models can be evaluated at states of integer", "C14 C15 C18", "rhs()/jacobian() raised for integer states"),
 ("PolynomialOperator Jacobian and", "C15 C24 C20", "wrong/missing Jacobian; copy/save/load lost the order"),
 ("UniformFiniteDifferencer rejects", "C29 C10", "nonuniform grids with small steps were accepted as uniform"),
 ("L2 regcond() accounts", "C13", "regcond() ignored zero singular values of underdetermined data"),
 ("a rejected regularizer does not", "C29 C12", "a regularizer rejected with an error stayed in force"),
 ("operators with sparse entries can be compared", "C14", "== raised for sparse entries"),
 ("PolynomialOperators of different orders", "C14", "operators of different order compared equal"),
]
EXTRA = os.path.join(HERE, "tools", "fixes_extra.json")
if os.path.exists(EXTRA):
    FIX += [tuple(x) for x in json.load(open(EXTRA))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for pre, props, what in FIX:
    hit = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + pre)]
    assert len(hit) == 1, (pre, hit)
    for p in props.split():
        fixed.append(f"fixed: property={p} {hit[0].split()[0]} {what}")
n = sum(1 for l in log if " fix:" in l)
if n != len(FIX):
    print("WARNING", n, "fix commits,", len(FIX), "listed")
path = os.path.join(HERE, "known_findings.json")
old = json.load(open(path)) if os.path.exists(path) else {}
json.dump(dict(findings=old.get("findings", []), fixed=fixed), open(path, "w"), indent=1)
print(len(fixed), "entries")
