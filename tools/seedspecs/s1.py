RUN = '''
import sys, torch
from mergekit.architecture import WeightInfo
from mergekit.common import ImmutableMap, ModelReference
import mergekit.merge_methods as mm
from mergekit.graph import Executor, Task
class Gather(Task):
    t: object
    def arguments(self): return {}
    def execute(self): return dict(self.t)
    def group_label(self): return None
def R(n): return ModelReference.model_validate(n)
def run(meth, tensors, tp, base=None, params=None):
    m = mm.get(meth)
    gp = {p.name: p.default_value for p in m.parameters()}; gp.update(params or {})
    full = {}
    for k in tensors:
        d = {p.name: p.default_value for p in m.tensor_parameters()}; d.update(tp.get(k, {}))
        full[R(k)] = ImmutableMap(data=d)
    task = m.make_task(output_weight=WeightInfo(name="w"), tensors=None, base_model=R(base) if base else None,
                       parameters=ImmutableMap(data=gp), tensor_parameters=ImmutableMap(data=full)) if False else None
    class G: pass
    from mergekit.io.tasks import GatherTensors
    wi = WeightInfo(name="w")
    g = GatherTensors(weight_info=ImmutableMap(data={R(k): wi for k in tensors}))
    task = m.make_task(output_weight=wi, tensors=g, base_model=R(base) if base else None,
                       parameters=ImmutableMap(data=gp), tensor_parameters=ImmutableMap(data=full))
    return task.execute(tensors={R(k): torch.tensor(v) for k, v in tensors.items() if v is not None})
def same(a, b, msg):
    b = torch.tensor(b)
    if a.shape != b.shape or not torch.allclose(a, b, atol=1e-4):
        print("FAIL", msg, a, b); sys.exit(1)
'''
SEEDS = [
 dict(id="c01-negsum", property="C01", needs="weights whose sum is negative (e.g. negation merges) with normalisation on",
      breaks="the weighted average is divided by the absolute weight sum, flipping the sign of the result",
      edits=[("mergekit/merge_methods/linear.py", "res = res / weights.sum(dim=0)", "res = res / weights.sum(dim=0).abs().clamp(min=1e-8)")],
      demo=RUN + '''
same(run("linear", {"a": [1.0, 2.0], "b": [3.0, 5.0]}, {"a": {"weight": 1.0}, "b": {"weight": 2.0}}), [7/3, 4.0], "positive")
same(run("linear", {"a": [1.0, 2.0], "b": [3.0, 5.0]}, {"a": {"weight": 1.0}, "b": {"weight": -2.0}}), [5.0, 8.0], "negative sum")
'''),
 dict(id="c01-zipweights", property="C01", needs="an optional tensor missing from a model that is not the last one, with unequal weights",
      breaks="weights are paired by position in the configuration, so remaining models get another model's weight",
      edits=[("mergekit/merge_methods/linear.py", 'weights = [self.tensor_parameters[key]["weight"] for key in keys]',
              'weights = [\n            params["weight"]\n            for params, _ in zip(self.tensor_parameters.data.values(), keys)\n        ]')],
      demo=RUN + '''
tp = {"a": {"weight": 1.0}, "b": {"weight": 2.0}, "c": {"weight": 5.0}}
same(run("linear", {"a": [1.0], "b": [2.0], "c": [3.0]}, tp), [20/8], "all")
same(run("linear", {"a": None, "b": [2.0], "c": [3.0]}, tp), [19/7], "first absent")
'''),
 dict(id="c04-zerodelta", property="C04", needs="a model whose (pruned) difference to the base is exactly zero at an element others change, in a sign-electing method with normalisation",
      breaks="models that do not touch an element count in its normalisation, diluting the others",
      edits=[("mergekit/merge_methods/generalized_task_arithmetic.py", "    return sign == majority_sign\n", "    # drop contributions that oppose the elected sign\n    return sign * majority_sign >= 0\n")],
      demo=RUN + '''
tp = {"a": {"weight": 1.0}, "c": {"weight": 1.0}, "b": {}}
same(run("ties", {"b": [0.0, 0.0], "a": [1.0, 2.0], "c": [3.0, -1.0]}, tp, "b"), [2.0, 2.0], "both")
same(run("ties", {"b": [0.0, 1.0], "a": [1.0, 3.0], "c": [0.0, 3.0]}, tp, "b"), [1.0, 3.0], "unchanged element")
'''),
 dict(id="c05-ties", property="C05", needs="several elements tied at the pruning threshold",
      breaks="more elements than the requested density are kept",
      edits=[("mergekit/sparsify.py", "    topk = torch.argsort(w, descending=True)[:k]\n    mask.view(-1)[topk] = 1\n", "    threshold = torch.sort(w, descending=True).values[k - 1]\n    mask.view(-1)[w >= threshold] = 1\n")],
      demo=RUN + '''
from mergekit.sparsify import sparsify, SparsificationMethod as S
r = sparsify(torch.tensor([4.0, -3.0, 2.0, 1.0]), 0.5, S.magnitude)
same(r, [4.0, -3.0, 0.0, 0.0], "distinct")
r = sparsify(torch.tensor([2.0, -2.0, 2.0, 1.0]), 0.5, S.magnitude)
sys.exit(0 if int((r != 0).sum()) == 2 else 1)
'''),
 dict(id="c02-nuslerp-base-order", property="C02", needs="nuslerp with a base model and flatten off (row- or column-wise mode)",
      breaks="row-wise mode with a base flattens along the wrong axis",
      edits=[("mergekit/merge_methods/nuslerp.py", "                tensors[1] - base_tensor,\n                dim=0 if self.row_wise else -1,", "                tensors[1] - base_tensor,\n                dim=-1 if self.row_wise else 0,")],
      demo=RUN + '''
import math
tp = {"a": {"weight": 1.0}, "c": {"weight": 1.0}, "b": {}}
A = [[2.0, 1.0], [0.0, 4.0]]; C = [[0.0, 2.0], [4.0, 0.0]]; Z = [[0.0, 0.0], [0.0, 0.0]]
h = math.sqrt(0.5)
P = {"nuslerp_flatten": False}
q1 = run("nuslerp", {"a": A, "c": C}, tp, None, P)
q2 = run("nuslerp", {"a": A, "c": C, "b": Z}, tp, "b", P)
same(q2, q1.tolist(), "zero base changes nothing")
'''),
]
