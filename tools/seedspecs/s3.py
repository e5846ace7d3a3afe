exec(open("/verif/tools/seedspecs/s2.py").read().split("\nSEEDS = [")[0])
TOK = '''
import sys, os, json, tempfile, warnings, logging
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
import torch
from transformers import LlamaConfig, PreTrainedTokenizerFast
from tokenizers import Tokenizer, models, pre_tokenizers
T = tempfile.TemporaryDirectory(); D = T.name
def tok(name, vocab, vocab_size=None):
    p = os.path.join(D, name); os.makedirs(p)
    t = Tokenizer(models.BPE(vocab={k: i for i, k in enumerate(vocab)}, merges=[], unk_token=vocab[0]))
    t.pre_tokenizer = pre_tokenizers.Whitespace()
    PreTrainedTokenizerFast(tokenizer_object=t, unk_token=vocab[0]).save_pretrained(p)
    c = LlamaConfig(vocab_size=vocab_size or len(vocab), hidden_size=4, intermediate_size=4, num_hidden_layers=1, num_attention_heads=1, num_key_value_heads=1, bos_token_id=None, eos_token_id=None)
    c.architectures = ["LlamaForCausalLM"]; c.save_pretrained(p)
    return p
def need(c, msg):
    if not c:
        print("FAIL", msg); sys.exit(1)
from mergekit.common import ModelReference, ImmutableMap
R = lambda p: ModelReference.model_validate({"model": {"path": p}})
'''
SEEDS = [
 dict(id="c10-stock-listing", property="C10", needs="Model Stock with the base model listed after another model",
      breaks="the base takes part as a fine-tuned model and the first listed one is lost when the base is not listed first",
      edits=[("mergekit/merge_methods/model_stock.py", "            tensors[k] for k in tensors if k != self.base_model\n", "            t for t in list(tensors.values())[1:]\n")],
      demo=RUN + '''
tp = {k: {} for k in "bac"}
v = {"a": [1.0, 2.0], "b": [0.5, -1.0], "c": [2.0, 0.0]}
import itertools
want = run("model_stock", {k: v[k] for k in "bac"}, tp, "b").tolist()
for order in itertools.permutations("abc"):
    same(run("model_stock", {k: v[k] for k in order}, {k: {} for k in order}, "b"), want, order)
'''),
 dict(id="c14-starcoder-bias", property="C14", needs="a Starcoder2 model, whose attention output projection has a bias",
      breaks="the bias of the attention output is not part of the definition, so merges leave it out",
      edits=[("mergekit/_data/architectures/starcoder2.json", '            {\n                "name": "model.layers.${layer_index}.self_attn.o_proj.bias"\n            },\n', '')],
      demo='''
import sys, torch, warnings
warnings.filterwarnings("ignore")
from transformers import Starcoder2Config, Starcoder2ForCausalLM
from mergekit.architecture import arch_info_for_config
c = Starcoder2Config(vocab_size=16, hidden_size=8, intermediate_size=8, num_hidden_layers=2, num_attention_heads=2, num_key_value_heads=1, bos_token_id=0, eos_token_id=1)
c.architectures = ["Starcoder2ForCausalLM"]
with torch.device("meta"):
    have = set(Starcoder2ForCausalLM(c).state_dict())
info = arch_info_for_config(c)
names = {w.name for w in info.all_weights(c)}
if have - names - {"lm_head.weight"}:
    print("FAIL", have - names); sys.exit(1)
'''),
 dict(id="c17-halftrailing", property="C17", needs="a main-thread task between two accelerator tasks whose result a trailing main-thread task needs too",
      breaks="a main-thread task with one trailing consumer runs after the parallel part although parallel tasks need its result, instead of the graph being refused",
      edits=[("mergekit/multigpu_executor.py", "            if all(d in trailing_tasks for d in dependants[task_handle]):", "            if not dependants[task_handle] or any(\n                d in trailing_tasks for d in dependants[task_handle]\n            ):")],
      demo='''
import sys
import mergekit.multigpu_executor as m
from mergekit.graph import Task
m.get_torch_accelerator_type = lambda: "cuda"
m.get_torch_accelerator_count = lambda: 2
class T(Task):
    n: str
    deps: tuple = ()
    main: bool = False
    def arguments(self): return {f"a{i}": d for i, d in enumerate(self.deps)}
    def execute(self, **kw): return self.n + "(" + ",".join(kw.values()) + ")"
    def main_thread_only(self): return self.main
    def uses_accelerator(self): return not self.main
a = T(n="a")
mid = T(n="mid", deps=(a,), main=True)
gpu = T(n="gpu", deps=(mid,))
end = T(n="end", deps=(mid,), main=True)
ok = m.MultiGPUExecutor([T(n="x", deps=(a,)), T(n="e", deps=(a,), main=True)], num_gpus=2)
try:
    m.MultiGPUExecutor([gpu, end], num_gpus=2)
except RuntimeError:
    sys.exit(0)
print("FAIL accepted"); sys.exit(1)
'''),
 dict(id="c21-edge-row", property="C21", needs="a tokenizer with exactly one token more than the model has embedding rows",
      breaks="the first token beyond the embedding matrix is mapped to a row that does not exist",
      edits=[("mergekit/tokenizer/build.py", "            if orig_idx >= vocab_size:\n", "            if orig_idx > vocab_size:\n")],
      demo=TOK + '''
from mergekit.tokenizer.build import build_tokenizer
a, b = tok("a", ["u", "x", "y", "z"]), tok("b", ["u", "x", "z"], 2)
r = build_tokenizer(R(a), [R(a), R(b)], "base", False, add_tokens=[])
v = r.tokenizer.get_vocab()
p = r.permutations[R(b)]
need(p[v["x"]] == 1 and p[v["u"]] == 0 and p[v["y"]] == -1, p)
need(p[v["z"]] == -1, f"row {p[v['z']]} of 2")
'''),
 dict(id="c22-lastrow", property="C22", needs="a configured embedding source model that lacks the token",
      breaks="a token source that does not exist is not refused: the last row of that model is used",
      edits=[("mergekit/tokenizer/embed.py", '            assert p[token_id] >= 0, f"Token {repr(token)} not found in model {model}"\n', '            assert token_id in p, f"Token {repr(token)} not found in model {model}"\n')],
      demo=TOK + '''
from mergekit.tokenizer.build import build_tokenizer
from mergekit.tokenizer.embed import PermutedEmbeddings
from mergekit.tokenizer.config import TokenEmbeddingConfig
a, b = R(tok("a", ["u", "x", "y"])), R(tok("b", ["u", "z"]))
info = build_tokenizer(a, [a, b], "union", False, add_tokens=[])
ts = {a: torch.arange(12.0).reshape(3, 4), b: -torch.arange(8.0).reshape(2, 4)}
def run(tokens):
    t = PermutedEmbeddings.model_construct(gather_tensors=None, tokenizer_task=None, tokens=ImmutableMap(data=tokens), pad_to_multiple_of=None, base_model=a)
    return t.execute(tokenizer_info=info, tensors=ts)
v = info.tokenizer.get_vocab()
r = run({"z": TokenEmbeddingConfig(source=b)})
need(r[a][v["z"]].tolist() == [-4.0, -5.0, -6.0, -7.0], "row of b")
try:
    run({"y": TokenEmbeddingConfig(source=b, force=True)})
except Exception:
    sys.exit(0)
need(False, "missing source accepted")
'''),
 dict(id="c23-upscale", property="C23", needs="an expert with a residual_scale in a Mixtral merge",
      breaks="residual_scale multiplies the up projection as well as the down projection",
      edits=[("mergekit/moe/mixtral.py", 'is_residual=source_param == "down_proj",', 'is_residual=source_param != "gate_proj",')],
      demo=MRG + '''
from mergekit.moe.mixtral import MixtralMoE
from mergekit.moe.config import MoEMergeConfig
from mergekit.options import MergeOptions
a, b = model("a", seed=1), model("b", seed=2)
out = os.path.join(D, "moe")
cfg = MoEMergeConfig.model_validate({"base_model": a, "dtype": "float32", "experts": [{"source_model": a, "positive_prompts": ["x"]}, {"source_model": b, "positive_prompts": ["y"], "residual_scale": 0.5}]})
MixtralMoE().write_model(out, cfg, MergeOptions(), [torch.ones(2, 8)] * 2)
from transformers import MixtralForCausalLM
sd = MixtralForCausalLM.from_pretrained(out).state_dict()
B = load(b)
for l in range(2):
    p = f"model.layers.{l}.mlp."
    gu, dn = sd[p + "experts.gate_up_proj"][1], sd[p + "experts.down_proj"][1]
    need(torch.allclose(dn, 0.5 * B[p + "down_proj.weight"], atol=1e-5), "down")
    need(torch.allclose(gu, torch.cat([B[p + "gate_proj.weight"], B[p + "up_proj.weight"]]), atol=1e-5), "gate and up")
'''),
 dict(id="c24-sharded-redo", property="C24", needs="--lazy with an existing complete result that is stored in several shards",
      breaks="a result stored in several safetensors shards is not recognised and computed again",
      edits=[("mergekit/scripts/multimerge.py", '    "model.safetensors.index.json",\n', '')],
      demo=MRG + '''
import mergekit.scripts.multimerge as mm
a = model("a"); b = model("b", seed=1)
inter = os.path.join(D, "i")
f = os.path.join(D, "c.yml")
open(f, "w").write(yaml.dump_all([{"name": "one", "merge_method": "linear", "models": [{"model": a, "parameters": {"weight": 1}}, {"model": b, "parameters": {"weight": 1}}], "dtype": "float32"}]))
for size in ("1B", "100"):
    args = [f, "-I", inter + size, "--quiet", "--no-copy-tokenizer", "--out-shard-size", size]
    mm.main.main(args, standalone_mode=False)
    calls = []
    real, mm.run_merge = mm.run_merge, lambda *x, **k: calls.append(1)
    mm.main.main(args, standalone_mode=False)
    mm.run_merge = real
    need(not calls, "complete result computed again, shard size " + size)
'''),
 dict(id="c25-base-lacks", property="C25", needs="a base file that is not among the models and lacks a tensor all models have",
      breaks="tensors missing from a separately given base model are not refused",
      edits=[("mergekit/scripts/merge_raw_pytorch.py", "        if len(has_tensor) < len(inputs):\n", "        if len(has_tensor) < len(config.models):\n")],
      demo=MRG + '''
import safetensors.torch as st
from mergekit.scripts.merge_raw_pytorch import main
def f(name, **t):
    p = os.path.join(D, name); st.save_file({k: torch.tensor(v) for k, v in t.items()}, p); return p
a, b = f("a.safetensors", x=[1.0, 2.0], y=[3.0]), f("b.safetensors", x=[2.0, 2.0], y=[1.0])
full, part = f("full.safetensors", x=[0.0, 0.0], y=[0.0]), f("part.safetensors", x=[0.0, 0.0])
def go(base, *extra):
    c = os.path.join(D, "c.yml"); out = tempfile.mkdtemp(dir=D)
    open(c, "w").write(yaml.dump({"merge_method": "task_arithmetic", "base_model": base, "models": [{"model": p, "parameters": {"weight": 1.0}} for p in (a, b)]}))
    main.main([c, out, *extra], standalone_mode=False)
    return load(out)
need(set(go(full)) == {"x", "y"}, "complete base")
need(set(go(part, "--tensor-intersection")) == {"x"}, "intersection")
try:
    go(part)
except Exception:
    sys.exit(0)
need(False, "missing tensor accepted")
'''),
 dict(id="c26-lowerbyte", property="C26", needs="byte fallback for a character whose code has a hexadecimal letter",
      breaks="byte tokens are looked up with lower case digits, which no vocabulary has",
      edits=[("mergekit/scripts/tokensurgeon.py", 'byte_tok = f"<0x{ord(token):02X}>"', 'byte_tok = f"<0x{ord(token):02x}>"')],
      demo='''
import sys
from mergekit.scripts.tokensurgeon import match_byte_token
v = {f"<0x{i:02X}>": i for i in range(256)}
bad = [i for i in range(256) if match_byte_token(chr(i), v) != i]
if bad:
    print("FAIL", bad[:4]); sys.exit(1)
'''),
 dict(id="c27-exclude-start", property="C27", needs="an exclude pattern that does not match from the start of the module name",
      breaks="exclude patterns only count when they match at the beginning of a module's name",
      edits=[("mergekit/scripts/extract_lora.py", "        if any(re.search(r, name) for r in exclude_regexes):\n", "        if any(re.match(r, name) for r in exclude_regexes):\n")],
      demo=MRG + '''
from mergekit.scripts.extract_lora import main
a, b = model("a"), model("b", seed=1)
out = os.path.join(D, "lora")
def go(pat):
    import shutil
    shutil.rmtree(out, True)
    main.main(["--base-model", a, "--model", b, "--out-path", out, "--max-rank", "2", "--exclude-regex", pat], standalone_mode=False)
    import safetensors.torch as st
    return {k for f in os.listdir(out) if f.endswith(".safetensors") for k in st.load_file(os.path.join(out, f))}
need(any("v_proj" in k for k in go("nothing")), "extracted")
need(not any("v_proj" in k for k in go("v_proj$")), "excluded in the middle")
need(not any("v_proj" in k for k in go(".*v_proj")), "excluded from the start")
'''),
 dict(id="c28-slerp-from", property="C28", needs="a slerp genome whose definition names a base model",
      breaks="the definition's base model is the start of the interpolation even where another model has the largest gene",
      edits=[("mergekit/evo/genome.py", '            s["base_model"] = self.definition.models[chosen.indices[0].item()]\n', '            s["base_model"] = (\n                self.definition.base_model\n                if self.definition.base_model in self.definition.models\n                else self.definition.models[chosen.indices[0].item()]\n            )\n')],
      demo=MRG + '''
from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition
a, b, c = model("a"), model("b"), model("c")
for base in (None, a):
    g = ModelGenome(ModelGenomeDefinition(models=[a, b, c], merge_method="slerp", base_model=base, layer_granularity=1))
    x = torch.zeros(2, 3, 1, 1)
    x[0, :, 0, 0] = torch.tensor([0.5, 1.0, 0.25]); x[1, :, 0, 0] = torch.tensor([0.5, 0.1, 0.75])
    m = g.genotype_merge_config(x)
    got = [(str(s.base_model), {str(z.model) for z in s.sources}) for s in m.slices]
    need(got == [(b, {a, b}), (c, {a, c})], (base, got))
'''),
 dict(id="c29-cache-revision", property="C29", needs="two revisions of the same base or adapter merged with one cache directory",
      breaks="the cached merge of an adapter is used for another revision of the model",
      edits=[("mergekit/common.py", "            + str(binascii.crc32(self.__str__().encode()))\n", "            + str(binascii.crc32(self.path.encode()))\n")],
      demo='''
import sys, tempfile
import mergekit.common as c
calls = []
class M:
    def __init__(self, *a): self.a = a
    def merge_and_unload(self): return self
    def save_pretrained(self, p, **k):
        import os
        os.makedirs(p); open(os.path.join(p, "config.json"), "w").write("{}")
class Auto:
    @staticmethod
    def from_pretrained(path, revision=None, **k):
        calls.append((path, revision)); return M(path, revision)
class Cfg: architectures = ["LlamaForCausalLM"]
c.get_auto_cls = lambda a: Auto
class AC:
    @staticmethod
    def from_pretrained(*a, **k): return Cfg()
c.AutoConfig = AC
class P: 
    class PeftModel:
        @staticmethod
        def from_pretrained(m, path, revision=None, **k):
            calls.append((path, revision)); return M()
c.peft = P
with tempfile.TemporaryDirectory() as d:
    seen = {}
    for r in ("base@v1+lora", "base@v2+lora", "base@v1+lora@x", "base@v1+lora"):
        calls.clear()
        p = c.ModelReference.parse(r).merged(cache_dir=d).model.path
        if r not in seen and (p in seen.values() or len(calls) != 2):
            print("FAIL", r, p, calls); sys.exit(1)
        seen[r] = p
'''),
 dict(id="c30-first-missing", property="C30", needs="a donor that has the second of the architecture's further files but not the first",
      breaks="copying further files stops at the first one the donor does not have",
      edits=[("mergekit/merge.py", "        fp = os.path.join(donor_local_path, file_name)\n        if os.path.exists(fp):\n            LOG.info(f\"Copying {file_name} from {donor_model}\")\n            shutil.copy(\n                fp,\n                os.path.join(out_path, file_name),\n            )\n", "        fp = os.path.join(donor_local_path, file_name)\n        if not os.path.exists(fp):\n            break\n        LOG.info(f\"Copying {file_name} from {donor_model}\")\n        shutil.copy(\n            fp,\n            os.path.join(out_path, file_name),\n        )\n")],
      demo=MRG + '''
from transformers import WhisperConfig, WhisperForConditionalGeneration
def whisper(name, seed, *files):
    torch.manual_seed(seed)
    m = WhisperForConditionalGeneration(WhisperConfig(vocab_size=16, num_mel_bins=4, encoder_layers=1, decoder_layers=1, encoder_attention_heads=1, decoder_attention_heads=1, d_model=4, encoder_ffn_dim=4, decoder_ffn_dim=4, max_source_positions=4, max_target_positions=4, pad_token_id=0, bos_token_id=0, eos_token_id=0, decoder_start_token_id=0))
    p = os.path.join(D, name); m.save_pretrained(p)
    for f in files:
        open(os.path.join(p, f), "w").write(json.dumps({"from": name}))
    return p
FILES = {"preprocessor_config.json", "normalizer.json"}
other = whisper("other", 0, *FILES)
for k, want in enumerate([("preprocessor_config.json", "normalizer.json"), ("preprocessor_config.json",), (), ("normalizer.json",)]):
    a = whisper(f"a{k}", k + 1, *want)
    _, out = merge({"merge_method": "linear", "models": [{"model": m, "parameters": {"weight": 1}} for m in (a, other)], "dtype": "float32"})
    have = {f for f in FILES if os.path.exists(os.path.join(out, f))}
    need(have == set(want), (want, have))
    need(all(json.load(open(os.path.join(out, f))) == {"from": f"a{k}"} for f in have), "content")
'''),
 dict(id="c31-weight-order", property="C31", needs="mergekit-legacy with several models and several --weight values while the base is listed later",
      breaks="weights given one by one are assigned to the models in sorted order",
      edits=[("mergekit/scripts/legacy.py", "    models = [InputModelDefinition(model=model, parameters={}) for model in merge]\n", "    models = [\n        InputModelDefinition(model=model, parameters={})\n        for model in sorted(set(merge))\n    ]\n")],
      demo=MRG + '''
from mergekit.scripts.legacy import main
a, b = model("a"), model("b", seed=1)
A, B = load(a), load(b)
for first, second, F, S in ((a, b, A, B), (b, a, B, A)):
    out = tempfile.mkdtemp(dir=D)
    main.main([out, "--method", "linear", "--merge", first, "--merge", second, "--weight", "3", "--weight", "1", "--no-copy-tokenizer", "--quiet"], standalone_mode=False)
    r = load(out)
    need(all(torch.allclose(r[k], (3 * F[k] + S[k]) / 4, atol=1e-5) for k in r), (first, second))
'''),
 dict(id="c32-prefix-char", property="C32", needs="module names that start with the same characters as the prefix",
      breaks="everything before the first dot counts as the prefix if it merely starts like it",
      edits=[("mergekit/scripts/fill_missing_params.py", '        if prefix != "" and name.startswith(prefix + "."):\n            return name[len(prefix) + 1 :]\n', '        if prefix != "" and name.startswith(prefix):\n            return name.split(".", 1)[-1]\n')],
      demo='''
import sys, os, tempfile, torch
import safetensors.torch as st
from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
with tempfile.TemporaryDirectory() as d:
    def m(name, **t):
        p = os.path.join(d, name); os.makedirs(p)
        st.save_file({k: torch.tensor([v]) for k, v in t.items()}, os.path.join(p, "model.safetensors")); return p
    b = m("big", **{"lm.b": 1.0, "lmx.a": 2.0, "lmx.c": 3.0, "v.a": 4.0, "v.c": 5.0})
    s = m("sub", a=10.0, b=20.0, c=30.0)
    out = copy_and_fill_missing_params(b, s, output_dir=os.path.join(d, "out"))
    r = {k: float(v) for k, v in st.load_file(os.path.join(out, "model.safetensors")).items()}
    if r != {"lm.b": 1.0, "lmx.a": 10.0, "lmx.c": 30.0, "v.a": 4.0, "v.c": 5.0} and r != {"lm.b": 1.0, "lmx.a": 2.0, "lmx.c": 3.0, "v.a": 10.0, "v.c": 30.0}:
        print("FAIL", r); sys.exit(1)
'''),
]
