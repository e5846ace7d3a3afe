exec(open("/verif/tools/seedspecs/s3.py").read().split("\nSEEDS = [")[0])
HUB = TOK + '''
import transformers
for cls in (transformers.AutoTokenizer, transformers.AutoConfig):
    def fp(path, *a, _real=cls.from_pretrained, revision=None, **k):
        return _real(os.path.join(D, revision or "main") if path == "org/m" else path, *a, **k)
    cls.from_pretrained = fp
M = lambda r: ModelReference.model_validate("org/m" + (f"@{r}" if r else ""))
'''
SEEDS = [
 dict(id="c21-source-revision", property="C21", needs="a tokenizer source named with a revision whose vocabulary differs from the default revision's",
      breaks="the output vocabulary is that of the repository's default revision",
      edits=[("mergekit/tokenizer/build.py", "            tokenizer_source.model.path,\n            revision=tokenizer_source.model.revision,\n", "            tokenizer_source.model.path,\n")],
      demo=HUB + '''
from mergekit.tokenizer.build import build_tokenizer
tok("main", ["u", "x"]); tok("r1", ["u", "x", "y"])
r = build_tokenizer(M("r1"), [M("r1"), M(None)], M("r1"), False, add_tokens=[])
v = r.tokenizer.get_vocab()
need(v == {"u": 0, "x": 1, "y": 2}, v)
need(r.permutations[M(None)][v["y"]] == -1, r.permutations)
'''),
 dict(id="c30-auto-revision", property="C30", needs="chat_template auto with models named by a revision whose template differs from the default revision's",
      breaks="the most common template is taken among the default revisions of the models",
      edits=[("mergekit/merge.py", "                    model.model.path,\n                    revision=model.model.revision,\n", "                    model.model.path,\n")],
      demo=HUB + '''
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from safetensors.torch import save_file
import huggingface_hub
huggingface_hub.list_repo_files = lambda p, *a, revision=None, **k: os.listdir(os.path.join(D, revision or "main"))
huggingface_hub.snapshot_download = lambda p, *a, revision=None, **k: os.path.join(D, revision or "main")
from transformers import LlamaForCausalLM
for n, t in (("main", "old {{ messages }}"), ("r1", "new {{ messages }}")):
    p = tok(n, ["u", "x"])
    LlamaForCausalLM(LlamaConfig.from_pretrained(p)).save_pretrained(p)
    q = PreTrainedTokenizerFast.from_pretrained(p); q.chat_template = t; q.save_pretrained(p)
out = os.path.join(D, "out")
c = MergeConfiguration.model_validate(dict(merge_method="passthrough", chat_template="auto", models=[dict(model="org/m@r1")]))
run_merge(c, out, MergeOptions(copy_tokenizer=True, write_model_card=False, quiet=True))
got = PreTrainedTokenizerFast.from_pretrained(out).chat_template
need(got == "new {{ messages }}", got)
'''),
 dict(id="c14-tenth-layer", property="C14", needs="an architecture without a definition, more than ten layers and a parameter that changes over the layers",
      breaks="layers from the tenth on are treated as weights of no layer, so that the layers are merged with wrong parameters",
      edits=[("mergekit/architecture/auto.py", 're.compile(r"\\.(\\d+)\\.")', 're.compile(r"\\.(\\d)\\.")')],
      demo='''
import sys, os, json, tempfile, warnings, logging
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
import torch
from transformers import OPTConfig, OPTForCausalLM
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from safetensors.torch import load_file
with tempfile.TemporaryDirectory() as D:
    c = OPTConfig(vocab_size=8, hidden_size=8, ffn_dim=8, num_hidden_layers=17, num_attention_heads=1, max_position_embeddings=8, word_embed_proj_dim=8)
    m = OPTForCausalLM(c)
    with torch.no_grad():
        for p in m.parameters(): p.fill_(1.0)
    m.save_pretrained(os.path.join(D, "a"))
    cfg = MergeConfiguration.model_validate(dict(merge_method="linear", dtype="float32", parameters=dict(normalize=False), models=[dict(model=os.path.join(D, "a"), parameters=dict(weight=[1.0, 3.0]))]))
    run_merge(cfg, os.path.join(D, "o"), MergeOptions(copy_tokenizer=False, write_model_card=False, quiet=True))
    t = load_file(os.path.join(D, "o", "model.safetensors"))
    bad = [k for k, v in t.items() for i in [int(k.split(".layers.")[1].split(".")[0]) if ".layers." in k else None] if i is not None and abs(float(v.reshape(-1)[0]) - (1 + i / 8)) > 1e-5]
if bad:
    print("FAIL", bad[:3]); sys.exit(1)
'''),
]
