PROPS = []
PROPS.append(
 dict(id="D01", title="Range estimators set exactly the range their definition gives for all data",
  statement="For every batch seen while estimating, per quantization parameter: running min-max sets the quantizer's range to the smallest and largest value of all batches so far; smoothed min-max to the exponential average (1-gamma)*old + gamma*new of the batch extremes, starting from the first batch; and the grid search to the candidate range with the smallest error summed over all batches, evaluating every candidate of the grid (with its own minimum and maximum, on exactly the observed data) and updating the range exactly when the update policy, if any, says so. The default grid pairs every minimum with every maximum for asymmetric quantizers and uses mirrored ranges for symmetric ones. Observed data is never changed; the observed layer's result is the quantized data, or the unquantized data when quantization is disabled; quantizers whose range cannot be estimated are refused, or left out when skipping them was requested.",
  quantifier=dict(over=["inputs", "histories", "configurations"], text="all sequences of batches, granularities, symmetries, numbers of candidates, update policies and options"),
  why_tests_cant="Estimates depend on the history of batches, and a candidate left out or a state updated in the wrong order shows only for particular sizes, signs or sequences; tests use few batches and a square number of candidates.",
  anchors=dict(files=["src/fastforward/range_setting/minmax.py", "src/fastforward/range_setting/min_error.py", "src/fastforward/range_setting/common.py"],
   mechanism=[dict(name="RunningMinMaxRangeEstimator, SmoothedMinMaxRangeEstimator", where="src/fastforward/range_setting/minmax.py"), dict(name="MinErrorGridRangeEstimator, _UniformSearchGrid", where="src/fastforward/range_setting/min_error.py"), dict(name="SimpleEstimatorStep", where="src/fastforward/range_setting/common.py")]),
  technique="abstract interpretation of the estimator overrides for the first and any later batch; algebraic comparison of state and range",
  note="Later batches are decided inductively from an arbitrary state; the numeric choice of the uniform grid's margins is not decided."))
