MRG = '''
import sys, os, json, tempfile, warnings, logging
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
import torch
from transformers import LlamaConfig, LlamaForCausalLM
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from safetensors.torch import load_file
T = tempfile.TemporaryDirectory()
D = T.name
def need(ok, *msg):
    if not ok:
        print("FAIL", *msg); sys.exit(1)
def model(n, layers=1, **kw):
    torch.manual_seed(sum(map(ord, n)))
    LlamaForCausalLM(LlamaConfig(vocab_size=16, hidden_size=8, intermediate_size=16, num_hidden_layers=layers, num_attention_heads=2, num_key_value_heads=2, tie_word_embeddings=False, **kw)).save_pretrained(os.path.join(D, n))
    return os.path.join(D, n)
def merge(c, out="out", **kw):
    run_merge(MergeConfiguration.model_validate(c), os.path.join(D, out), MergeOptions(**dict(dict(copy_tokenizer=False, write_model_card=False, quiet=True), **kw)))
    return load_file(os.path.join(D, out, "model.safetensors"))
'''
SEEDS = [
 dict(id="c13-inplace-scale", property="C13", needs="a layer that two slices ask for, scaled in the one written first",
      breaks="the later copy of the layer is scaled as well, as the input tensor is changed in place",
      edits=[("mergekit/merge_methods/passthrough.py", "            tensor = tensor * scale\n", "            # weights can be large: no second copy\n            tensor = tensor.mul_(scale)\n")],
      demo=MRG + '''
a = model("a")
t = merge(dict(merge_method="passthrough", dtype="float32", slices=[
    dict(sources=[dict(model=a, layer_range=[0, 1], parameters=dict(scale=2.0))]),
    dict(sources=[dict(model=a, layer_range=[0, 1])])]))
x, y = (t[f"model.layers.{i}.mlp.up_proj.weight"] for i in (0, 1))
need(torch.allclose(x, 2 * y), float(x.reshape(-1)[0]), float(y.reshape(-1)[0]))
'''),
 dict(id="c31-seed-zero", property="C31", needs="--random-seed 0 and a method that draws random numbers",
      breaks="seed 0 counts as no seed, so that the merge is not reproducible",
      edits=[("mergekit/merge.py", "    if options.random_seed is not None:\n", "    if options.random_seed:\n")],
      demo=MRG + '''
a, b = model("a"), model("b")
c = dict(merge_method="dare_linear", base_model=a, dtype="float32", models=[dict(model=b, parameters=dict(weight=1.0, density=0.5))])
r = []
for s in (1, 2):
    torch.manual_seed(s)
    r.append(merge(c, f"o{s}", random_seed=0))
need(all(torch.equal(r[0][k], r[1][k]) for k in r[0]), "two runs with the same seed differ")
'''),
 dict(id="c23-inplace-scale", property="C23", needs="a model stored as a pickle that serves as two experts, a residual_scale on the first",
      breaks="the scale is applied to the loaded tensor itself, so that the second expert is scaled as well",
      edits=[("mergekit/moe/common.py", "        tensor = tensor * expert.residual_scale\n", "        tensor *= expert.residual_scale\n")],
      demo=MRG + '''
import shutil
from mergekit.moe.mixtral import MixtralMoE
from mergekit.moe.config import MoEMergeConfig
a, b = model("a"), model("b")
B = load_file(os.path.join(b, "model.safetensors"))
torch.save(B, os.path.join(b, "pytorch_model.bin"))
os.remove(os.path.join(b, "model.safetensors"))
cfg = MoEMergeConfig.model_validate({"base_model": a, "dtype": "float32", "experts": [{"source_model": b, "positive_prompts": ["x"], "residual_scale": 0.5}, {"source_model": b, "positive_prompts": ["y"]}]})
MixtralMoE().write_model(os.path.join(D, "moe"), cfg, MergeOptions(lazy_unpickle=False), [torch.ones(2, 8)])
from transformers import MixtralForCausalLM
sd = MixtralForCausalLM.from_pretrained(os.path.join(D, "moe")).state_dict()
d = B["model.layers.0.mlp.down_proj.weight"]
for i, f in ((0, 0.5), (1, 1.0)):
    need(torch.allclose(sd["model.layers.0.mlp.experts.down_proj"][i], f * d, atol=1e-5), "expert", i)
'''),
]
