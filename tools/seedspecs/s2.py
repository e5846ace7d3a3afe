exec(open("/verif/tools/seedspecs/s1.py").read().split("SEEDS = [")[0])
MRG = '''
import sys, os, json, tempfile, warnings, logging
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
import torch, yaml
from transformers import LlamaConfig, LlamaForCausalLM
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge, MergeOptions
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
T = tempfile.TemporaryDirectory(); D = T.name
def model(name, layers=2, seed=0, **kw):
    torch.manual_seed(seed)
    c = LlamaConfig(vocab_size=16, hidden_size=8, intermediate_size=12, num_hidden_layers=layers, num_attention_heads=2, num_key_value_heads=2, **kw)
    m = LlamaForCausalLM(c)
    for p in m.parameters():
        p.data.normal_()
    p = os.path.join(D, name); m.save_pretrained(p); return p
def merge(cfg, **opts):
    out = tempfile.mkdtemp(dir=D)
    run_merge(MergeConfiguration.model_validate(cfg), out, options=MergeOptions(quiet=True, copy_tokenizer=False, write_model_card=False, **opts))
    l = LazyTensorLoader.from_disk(out); return {k: l.get_tensor(k) for k in l.index.tensor_paths}, out
def load(p):
    l = LazyTensorLoader.from_disk(p); return {k: l.get_tensor(k) for k in l.index.tensor_paths}
def need(c, msg):
    if not c:
        print("FAIL", msg); sys.exit(1)
'''
SEEDS = [
 dict(id="c03-antipodal-base", property="C03", needs="exactly balanced opposite task vectors (linear fallback) together with a base model",
      breaks="the fallback result is left relative to the base: base is not added back",
      edits=[("mergekit/merge_methods/multislerp.py", "            if base_tensor is not None:\n                res = res + base_tensor\n            return res\n", "            return res\n")],
      demo=RUN + '''
tp = {"a": {"weight": 1.0}, "c": {"weight": 1.0}, "b": {}}
same(run("multislerp", {"a": [1.0, 2.0], "c": [3.0, -1.0]}, tp, None, {}), run("multislerp", {"a": [1.0, 2.0], "c": [3.0, -1.0], "b": [0.0, 0.0]}, tp, "b").tolist(), "zero base")
same(run("multislerp", {"b": [2.0, 1.0], "a": [3.0, 2.0], "c": [1.0, 0.0]}, tp, "b"), [2.0, 1.0], "antipodal around base")
'''),
 dict(id="c06-adjacent-pairs", property="C06", needs="four or more models (three or more fine-tuned) with unequal pairwise angles",
      breaks="only angles between neighbouring task vectors enter the average",
      edits=[("mergekit/merge_methods/model_stock.py", "            for j in range(i + 1, len(offsets)):\n", "            for j in range(i + 1, min(i + 2, len(offsets))):\n")],
      demo=RUN + '''
tp = {k: {} for k in "bacd"}
m = {"b": [0.0, 0.0], "a": [1.0, 0.0], "c": [2.0, 1.0], "d": [0.5, 2.0]}
r = run("model_stock", m, tp, "b")
import itertools
cos = lambda u, v: float((torch.tensor(u) @ torch.tensor(v)) / (torch.tensor(u).norm() * torch.tensor(v).norm()))
th = sum(cos(u, v) for u, v in itertools.combinations([m["a"], m["c"], m["d"]], 2)) / 3
t = 3 * th / (1 + 2 * th)
same(r, [t * 3.5 / 3, t * 1.0], "mean pairwise angle")
'''),
 dict(id="c07-sce-weights", property="C07", needs="select_topk below 1 and models whose discarded elements differ in magnitude",
      breaks="model weights are computed before the variance selection, so discarded elements still count",
      edits=[("mergekit/merge_methods/sce.py", "    if select_topk < 1:\n", "    tv_weights = sce_weight(task_vectors)\n    if select_topk < 1:\n"),
             ("mergekit/merge_methods/sce.py", "    tv_weights = sce_weight(task_vectors)\n    while", "    while")],
      demo=RUN + '''
tp = {k: {} for k in "bac"}
m = {"b": [0.0, 0.0], "a": [4.0, 1.0], "c": [2.0, 1.5]}
# only the first element is selected: weights 16:4
same(run("sce", m, tp, "b", {"select_topk": 0.5}), [(16*4+4*2)/20, 0.0] if False else run("sce", {k: [v[0], 0.0] for k, v in m.items()}, tp, "b", {"select_topk": 1.0}).tolist(), "selected part only")
'''),
 dict(id="c07-ramplus-shared", property="C07", needs="three or more models where one takes no part in an overlap of the others",
      breaks="RAM+ computes the overlap ratio of a model from overlaps it has no part in",
      edits=[("mergekit/merge_methods/ram.py", "    shared_counts = (nonzero_mask & overlap_mask).sum(dim=1)", "    shared_counts = overlap_mask.sum(dim=1)")],
      demo=RUN + '''
tp = {k: {} for k in "baced"}
# d is alone in its element, a and c overlap elsewhere: d must not be rescaled
r = run("ramplus_tl", {"b": [0.0, 0.0, 0.0], "a": [1.0, 1.0, 0.0], "c": [3.0, 1.0, 0.0], "d": [0.0, 0.0, 2.0]}, tp, "b", {"r": 0.5, "alpha": 0.2, "epsilon": 1e-5})
same(r, [2.0, 1.0, 2.0], "no overlap, no rescaling")
'''),
 dict(id="c08-arcee-partial", property="C08", needs="arcee_fusion of tensors with more than one dimension where rows differ in divergence",
      breaks="the importance of an element uses the divergence of the whole tensor instead of its own row's distribution",
      edits=[("mergekit/merge_methods/arcee_fusion.py", "        return diff * kl_div.unsqueeze(-1)", "        return diff * kl_div.mean()")],
      demo=RUN + '''
tp = {k: {} for k in "ba"}
B = [[0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]
# row 0: uniform shift, no divergence, hence no importance; row 1: one element changed
A = [[5.0, 5.0, 5.0, 5.0], [0.0, 0.0, 0.0, 2.0]]
r = run("arcee_fusion", {"b": B, "a": A}, tp, "b")
# importance: row 0 all 0, row 1 only the last: the last exceeds the threshold
if float(r[1][3]) != 2.0:
    print("FAIL", r); sys.exit(1)
'''),
 dict(id="c08-passmany", property="C08", needs="passthrough configured with several source models for a slice",
      breaks="passthrough silently takes the first of several inputs instead of refusing",
      edits=[("mergekit/merge_methods/passthrough.py", "        if len(tensors) != 1:", "        if not tensors:")],
      demo=RUN + '''
same(run("passthrough", {"a": [1.0, -2.0]}, {"a": {"scale": 0.5}}), [0.5, -1.0], "half")
try:
    run("passthrough", {"a": [1.0], "b": [2.0]}, {"a": {}, "b": {}})
except RuntimeError:
    sys.exit(0)
print("FAIL accepted"); sys.exit(1)
'''),
 dict(id="c09-rows-only", property="C09", needs="embeddings that differ in the number of columns as well as (or instead of) rows",
      breaks="only the row count decides whether matrices are cropped to the common part",
      edits=[("mergekit/merge_methods/rectify_embed.py", "    if not all(t.shape == torch.Size(min_size) for t in tensors):", "    if not all(t.shape[0] == min_size[0] for t in tensors):")],
      demo='''
import sys, torch
from mergekit.merge_methods.rectify_embed import rectify_embed_sizes
from mergekit.architecture import WeightInfo
w = WeightInfo(name="model.embed_tokens.weight", is_embed=True)
for shapes in ([(3, 2), (2, 2)], [(3, 2), (3, 3)], [(3, 3), (4, 2)]):
    ts = [torch.arange(float(a * b)).reshape(a, b) for a, b in shapes]
    want = [t[:min(s[0] for s in shapes), :min(s[1] for s in shapes)] for t in ts]
    rectify_embed_sizes(w, ts)
    if not all(a.shape == b.shape and bool((a == b).all()) for a, b in zip(ts, want)):
        print("FAIL", shapes); sys.exit(1)
'''),
 dict(id="c11-params-order", property="C11", needs="a method without base_tensor argument, a base model that is not listed first, per-model parameters",
      breaks="per-model parameter lists follow the listing order while tensors are base first",
      edits=[("mergekit/merge_methods/easy_define.py", "                self.tensor_parameters[ref][key.name] for ref in model_refs\n", "                self.tensor_parameters[ref][key.name]\n                for ref in self.tensor_parameters\n                if ref in model_refs\n")],
      demo=RUN + '''
from typing import List
from mergekit.merge_methods.easy_define import merge_method
@merge_method(name="demo_wsum")
def demo_wsum(tensors: List[torch.Tensor], w: List[float]) -> torch.Tensor:
    return sum(t * x for t, x in zip(tensors, w))
tp = {"a": {"w": 1.0}, "b": {"w": 10.0}, "c": {"w": 100.0}}
same(run("demo_wsum", {"a": [1.0], "b": [2.0], "c": [3.0]}, tp), [321.0], "no base")
same(run("demo_wsum", {"a": [1.0], "b": [2.0], "c": [3.0]}, tp, "b"), [321.0], "base second")
'''),
 dict(id="c12-zerofall", property="C12", needs="a slice-level parameter of exactly 0 with a different global value",
      breaks="an explicit zero at slice level is taken for unset and the global value applies",
      edits=[("mergekit/config.py", "                    self.tensor_name, self.slice_out.parameters[name], self.t\n                )\n                if value is not None:", "                    self.tensor_name, self.slice_out.parameters[name], self.t\n                )\n                if value:")],
      demo='''
import sys
from mergekit.config import MergeConfiguration, ConfigReader
def val(v):
    c = MergeConfiguration.model_validate(dict(merge_method="slerp", base_model="a", parameters={"t": 0.5},
        slices=[dict(sources=[dict(model="a", layer_range=[0, 2]), dict(model="b", layer_range=[0, 2])], parameters={"t": v})]))
    return ConfigReader(config=c, t=0.0, tensor_name="x", slice_out=c.slices[0]).parameter("t")
for v in (0.25, 1.0, 0.0):
    if val(v) != v:
        print("FAIL", v, val(v)); sys.exit(1)
'''),
 dict(id="c13-postslice", property="C13", needs="a stack whose slices come from different models (the final norm and head differ)",
      breaks="final norm and output head are taken from the first slice's model",
      edits=[("mergekit/plan.py", "                [weight_info] * len(definition.slices[-1].sources),\n                [s.model for s in definition.slices[-1].sources],", "                [weight_info] * len(definition.slices[-1].sources),\n                [s.model for s in definition.slices[0].sources],")],
      demo=MRG + '''
a, b = model("a", seed=1), model("b", seed=2)
t, _ = merge(dict(merge_method="passthrough", slices=[dict(sources=[dict(model=a, layer_range=[0, 1])]), dict(sources=[dict(model=b, layer_range=[1, 2])])]))
A, B = load(a), load(b)
need(torch.equal(t["model.embed_tokens.weight"], A["model.embed_tokens.weight"]), "embed from first")
need(torch.equal(t["lm_head.weight"], B["lm_head.weight"]), "head from last")
need(torch.equal(t["model.norm.weight"], B["model.norm.weight"]), "norm from last")
'''),
 dict(id="c15-outdtype-forced", property="C15", needs="a weight whose definition mandates a type, together with out_dtype",
      breaks="out_dtype overrides the mandated type of e.g. integer position ids",
      edits=[("mergekit/plan.py", "                    dtype=weight.force_dtype or self.config.out_dtype,\n                )\n            )\n        finalize", "                    dtype=self.config.out_dtype or weight.force_dtype,\n                )\n            )\n        finalize")],
      demo='''
import sys, os, tempfile, json, logging, warnings
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
import torch
from safetensors.torch import save_file
from transformers import BertConfig, BertForMaskedLM
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge, MergeOptions
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
with tempfile.TemporaryDirectory() as d:
    c = BertConfig(vocab_size=16, hidden_size=8, num_hidden_layers=1, num_attention_heads=2, intermediate_size=12, max_position_embeddings=6)
    m = BertForMaskedLM(c); p = os.path.join(d, "a"); m.save_pretrained(p)
    f = os.path.join(p, "model.safetensors")
    from safetensors.torch import load_file
    sd = load_file(f); sd["bert.embeddings.position_ids"] = torch.arange(6).unsqueeze(0); save_file(sd, f, metadata={"format": "pt"})
    for od in (None, "float16"):
        o = os.path.join(d, "o%s" % od)
        run_merge(MergeConfiguration.model_validate(dict(merge_method="passthrough", models=[dict(model=p)], out_dtype=od)), o, options=MergeOptions(quiet=True, copy_tokenizer=False, write_model_card=False))
        l = LazyTensorLoader.from_disk(o)
        k = "bert.embeddings.position_ids"
        if k not in l.index.tensor_paths:
            print("skipped: not written"); sys.exit(0)
        t = l.get_tensor(k)
        if t.dtype != torch.int64:
            print("FAIL", od, t.dtype); sys.exit(1)
'''),
 dict(id="c16-lastuse", property="C16", needs="a look at what is alive while the next task runs",
      breaks="results are dropped one task too late, so one superfluous tensor per step stays in memory",
      edits=[("mergekit/graph.py", "                if idx >= last_use_index[key]:\n                    expired.append(key)", "                if idx > last_use_index[key]:\n                    expired.append(key)")],
      demo='''
import sys, gc, weakref
from typing import Any, Dict
import torch
from mergekit.graph import Executor, Task
class V:
    pass
live = {}
class Src(Task):
    n: str
    def arguments(self): return {}
    def execute(self):
        v = V(); live[self.n] = weakref.ref(v); return v
    def group_label(self): return None
class Use(Task):
    a: Any
    n: str
    chk: tuple = ()
    def arguments(self): return {"a": self.a}
    def execute(self, a):
        gc.collect()
        for k in self.chk:
            if k in live and live[k]() is not None:
                print("FAIL", k, "still alive"); sys.exit(1)
        v = V(); live[self.n] = weakref.ref(v); return v
    def group_label(self): return None
s = Src(n="s")
t = s
for i in range(4):
    t = Use(a=t, n="u%d" % i, chk=(("s",) if i >= 1 else ()) + (("u%d" % (i - 2),) if i >= 2 else ()))
for _ in Executor([t]).run(quiet=True):
    pass
'''),
 dict(id="c18-exactfit", property="C18", needs="a tensor that exactly fills the remaining space of the shard",
      breaks="a tensor that exactly fits opens a new shard",
      edits=[("mergekit/io/tensor_writer.py", "self.current_shard_size + tensor_size > self.max_shard_size", "self.current_shard_size + tensor_size >= self.max_shard_size")],
      demo='''
import sys, os, tempfile, torch
from mergekit.io.tensor_writer import TensorWriter
with tempfile.TemporaryDirectory() as d:
    w = TensorWriter(d, max_shard_size=32)
    for i in range(4):
        w.save_tensor("t%d" % i, torch.zeros(4))
    w.finalize()
    n = len([f for f in os.listdir(d) if f.endswith(".safetensors")])
    if n != 2:
        print("FAIL", n); sys.exit(1)
'''),
 dict(id="c18-lostweightmap", property="C18", needs="asynchronous writing with several producer threads",
      breaks="the size of the current shard is updated outside the lock, so concurrent producers can overfill a shard",
      edits=[("mergekit/io/tensor_writer.py", "            self.current_shard[name] = tensor\n            self.current_shard_size += tensor_size\n", "            self.current_shard[name] = tensor\n        self.current_shard_size += tensor_size\n")],
      demo='''
import sys, os, tempfile, torch, threading
import mergekit.io.tensor_writer as tw
# the lock stand-in lets the second producer run completely in the gap after the first one releases the lock
class Lk:
    def __init__(self): self.l = threading.RLock(); self.n = 0
    def __enter__(self): self.l.acquire(); return self
    def __exit__(self, *a):
        self.l.release(); self.n += 1
        if self.n == 1:
            t = threading.Thread(target=lambda: w.save_tensor("b", torch.zeros(6))); t.start(); t.join()
with tempfile.TemporaryDirectory() as d:
    w = tw.TensorWriter(d, max_shard_size=32)
    w._lock = Lk()
    w.save_tensor("a", torch.zeros(6))
    w._lock = threading.RLock()
    w.finalize()
    for f in os.listdir(d):
        if f.endswith(".safetensors"):
            from safetensors.torch import load_file
            s = sum(v.numel() * 4 for v in load_file(os.path.join(d, f)).values())
            if s > 32:
                print("FAIL", f, s); sys.exit(1)
'''),
 dict(id="c19-alias-wins", property="C19", needs="a checkpoint that contains both a tensor's own name and one of its tied names or aliases",
      breaks="tied names win over the tensor's own name",
      edits=[("mergekit/io/tasks.py", "            [self.tensor] + list(self.aliases or []) + list(self.tied_names or [])", "            list(self.tied_names or []) + [self.tensor] + list(self.aliases or [])")],
      demo=MRG + '''
from mergekit.io.tasks import LoadTensor, LoaderCache
from mergekit.common import ModelReference
a = model("a", seed=3)
A = load(a)
r = ModelReference.model_validate(a)
t = LoadTensor(model=r, tensor="lm_head.weight", tied_names=("model.embed_tokens.weight",)).execute()
need(torch.equal(t, A["lm_head.weight"]), "own name first")
'''),
 dict(id="c20-seek", property="C20", needs="two reads from one storage where the second starts before the end of the first but after its start",
      breaks="the archive reader keeps its position after backward seeks inside the open file",
      edits=[("mergekit/io/lazy_unpickle.py", "            self.file is not None and self.file.tell() > offset\n        ):\n            if self.file is not None:", "            self.file is not None and offset == 0 and self.file.tell() > 0\n        ):\n            if self.file is not None:"),
             ("mergekit/io/lazy_unpickle.py", "        skip_bytes = offset - self.file.tell()\n        assert skip_bytes >= 0\n        self.file.seek(skip_bytes, os.SEEK_CUR)", "        skip_bytes = max(0, offset - self.file.tell())\n        self.file.seek(skip_bytes, os.SEEK_CUR)")],
      demo='''
import sys, os, tempfile, torch
from mergekit.io.loader import TensorLoader
with tempfile.TemporaryDirectory() as d:
    x = torch.arange(12.0)
    sd = {"a": x[0:4], "b": x[4:8], "c": x[6:12]}
    p = os.path.join(d, "pytorch_model.bin"); torch.save(sd, p)
    l = TensorLoader.get(p, use_lazy_unpickle=True)
    for k in ("a", "b", "c"):
        if not torch.equal(l.get_tensor(k), sd[k]):
            print("FAIL", k, l.get_tensor(k), sd[k]); sys.exit(1)
'''),
]
