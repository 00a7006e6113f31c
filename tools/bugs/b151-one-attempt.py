PROP = 'C12'
NEEDS = 'a request that allows no attempts'
BREAKS = 'blocked results are requested again all the same'
EDITS = [
    ('generators/magicprompt.py', '''            for _ in range(max_attempts):
''', '''            for _ in range(max(max_attempts, 1)):
'''),
]
DEMO = r'''
import sys, types
fail = [None]
def fp(name, **kw):
    if fail[0]: raise OSError("no connection")
    return types.SimpleNamespace(name=name, config=types.SimpleNamespace(eos_token_id=0), eos_token_id=0)
class Pipe:
    def __init__(self, model): self.model = model
    def __call__(self, prompts, **kw): return [[{"generated_text": f"{p} {self.model.name}"}] for p in prompts]
tf = types.ModuleType("transformers")
tf.AutoTokenizer = tf.AutoModelForCausalLM = types.SimpleNamespace(from_pretrained=fp)
tf.pipeline = lambda task, tokenizer, model, **kw: Pipe(model)
tf.set_seed = lambda s: None
sys.modules["transformers"] = tf
from dynamicprompts.generators.magicprompt import MagicPromptGenerator

g = MagicPromptGenerator(model_name="m1", blocklist_regex="bad")
n = [0]
def gen(prompts, **kw):
    n[0] += 1
    return [[{"generated_text": p + " bad"}] for p in prompts]
g._generator = gen
g.generate("a", 1, max_attempts=0)
assert n[0] == 1, n
'''
