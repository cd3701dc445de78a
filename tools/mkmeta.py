"""Writes properties.jsonl and MANIFEST.json from the table below; checks that exist are claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "src/mssm/src/python/"
CPP = "src/mssm/src/cpp/"
P = []


def prop(id, title, statement, text, why, files, mech, tech, note, over=("inputs", "configurations")):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), tech=tech, note=note))


HS = [PY + "hsmm.py", CPP + "hsmm/llk.cpp"]
SMALL = "Stable tests compare a handful of stored numbers from two or three fixed models."
UNT = "No stable test exercises this code at all; the remaining tests compare stored numbers of single fits."

prop("C02", "HSMM log-likelihood and probabilities follow the model definition",
     "For a hidden semi-Markov model the log-likelihood reported for given coefficients is the sum over series of the log of the total weight of all admissible state-visit sequences (initial, transition, duration and emission probabilities), for every start/end convention, fixed, estimated or time-varying dynamics, shared terms and emission families. The reported per-sample emission, duration, transition and initial probabilities are those of the model, series by series. Running series in parallel or passing series boundaries at call time changes nothing.",
     "all small HSMMs over states, signals, durations, series lengths, end conventions, families, coefficients", SMALL + " They never vary the end conventions, time-varying dynamics or series-specific matrices together.",
     HS, [("forward recursion", CPP + "hsmm/llk.cpp"), ("per-series probabilities", PY + "hsmm.py:_compute_series_probs"), ("transition/initial", PY + "hsmm.py:HSMMFamily.compute_Tpi")],
     "runtime oracle: recorded library results against an independent visit-sequence reference",
     "held on every generated problem; the reference itself is compared with exhaustive enumeration of visit sequences")
prop("C03", "HSMM gradient is the derivative of the HSMM log-likelihood",
     "For every hidden semi-Markov model with Gaussian, Gamma, categorical, multivariate normal or event-template emissions, the gradient reported for given coefficients equals the derivative of the reported log-likelihood with respect to every coefficient (emission, shared, duration, transition, initial and covariance coefficients), in every configuration, sequentially and in parallel.",
     "all small HSMMs as in C02, every coefficient", SMALL + " Only the sum of one or two gradients is compared to a stored value.",
     HS + [CPP + "hsmm/derivatives.cpp"], [("gradient recursion", CPP + "hsmm/llk.cpp"), ("chain rule to coefficients", PY + "hsmm.py:HSMMFamily.gradient")],
     "runtime oracle: reported gradient against Richardson-extrapolated differences of the reference and reported log-likelihood",
     "held on every generated problem and every coefficient")
prop("C04", "HSMM decoding is optimal and posterior state samples are exact",
     "The state sequence decoded for a series is admissible and no other admissible sequence of state visits has a larger joint probability with the data. State sequences sampled for a series are admissible and follow the exact posterior distribution given data and coefficients, and a fixed seed gives the same samples again.",
     "all small HSMMs as in C02 with at least one admissible sequence per series", SMALL + " Optimality and a distribution cannot be read off stored sequences.",
     [PY + "hsmm.py", CPP + "hsmm/decode.cpp"], [("viterbi recursion", CPP + "hsmm/decode.cpp:viterbi"), ("backward sampling", CPP + "hsmm/decode.cpp:sample_backwards")],
     "runtime oracle: weight of decoded paths against the optimum; goodness-of-fit of sampled paths against the enumerated posterior",
     "statistical part at p<1e-8 per test with 3000 samples")
prop("C05", "HSMM residuals are the model's one-step-ahead statements",
     "For every sample whose future is unconstrained, the forward residual of each signal is the conditional distribution function of that signal given all earlier samples (or its standard-normal quantile), and the predictive residual is the standardised cumulated deviation from the conditional mean given all earlier samples. Duration residuals average, per state, the standardised deviance residual of the visit lengths of the decoded (or sampled) state sequence of the same series under that visit's duration distribution.",
     "all small HSMMs as in C02 with Gaussian, Gamma, multivariate normal or Gaussian event-template emissions", SMALL + " The residual tests are not even stable here.",
     [PY + "hsmm.py", CPP + "hsmm/resid.cpp"], [("forward residuals", CPP + "hsmm/resid.cpp:forward_resid"), ("predictive residuals", CPP + "hsmm/resid.cpp:predictive_resid"), ("duration residuals", PY + "hsmm.py:_compute_dur_res_series")],
     "runtime oracle: reported residuals against an independent visit-filter reference", "held on every generated problem; categorical emissions and constrained ends excluded")
prop("C06", "Simulated HSMM series follow the model",
     "State sequences simulated from a hidden semi-Markov model follow its initial, transition and duration distributions, and the simulated signals, given the simulated states, are independent draws from the emission distribution of the current state at that sample. The same seed reproduces the same simulation.",
     "all small HSMMs as in C02", "One stored draw is compared; a distribution cannot be judged from it.",
     [PY + "hsmm.py"], [("simulation", PY + "hsmm.py:HSMMFamily.predict"), ("emission draws", PY + "hsmm.py:_sample_series_emissions")],
     "runtime oracle: goodness-of-fit of recorded simulations against the enumerated state process and emission distributions",
     "statistical, p<1e-8 per test; visit lengths are one sample too long (known finding), any other deviation is reported")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
NA = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps({k: v for k, v in p.items() if k not in ("tech", "note")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
checks, na = [], list(NA)
for p in P:
    if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                           technique=p["tech"], level="exploration", level_note=p["note"]))
    elif p["id"] not in [x["property"] for x in na]:
        na.append(dict(property=p["id"], reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="./check ID runs one property against /repo's working tree; extensions are compiled into a scratch folder each time. "
                     "No hooks are needed in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
