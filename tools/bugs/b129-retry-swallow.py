PROP = 'C12'
NEEDS = 'the model failing while blocked results are requested again'
BREAKS = 'the failure is hidden and blocked results are returned'
EDITS = [
    ('generators/magicprompt.py', '''                regenerated_prompts = self._generate_magic_prompts(
                    prompts_to_regenerate,
                )
''', '''                try:
                    regenerated_prompts = self._generate_magic_prompts(
                        prompts_to_regenerate,
                    )
                except RuntimeError as e:  # e.g. out of GPU memory
                    logger.warning("Could not generate again: %s", e)
                    break
'''),
]
DEMO = r'''
import sys, types
fail = [None]
def fp(name, **kw):
    if fail[0]: raise OSError("no connection")
    return types.SimpleNamespace(name=name, config=types.SimpleNamespace(eos_token_id=0), eos_token_id=0)
class Pipe:
    def __init__(self, model): self.model = model
    def __call__(self, prompts, **kw): return [[{"generated_text": f"{p} {self.model.name}"}] for p in prompts]
tf = types.ModuleType("transformers")
tf.AutoTokenizer = tf.AutoModelForCausalLM = types.SimpleNamespace(from_pretrained=fp)
tf.pipeline = lambda task, tokenizer, model, **kw: Pipe(model)
tf.set_seed = lambda s: None
sys.modules["transformers"] = tf
from dynamicprompts.generators.magicprompt import MagicPromptGenerator

g = MagicPromptGenerator(model_name="m1", blocklist_regex="bad")
n = [0]
def gen(prompts, **kw):
    n[0] += 1
    if n[0] == 2: raise RuntimeError("out of memory")
    return [[{"generated_text": p + " bad"}] for p in prompts]
g._generator = gen
try: g.generate("a", 1); assert False, "no error"
except RuntimeError: pass
'''
