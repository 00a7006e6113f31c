PROP = 'C13'
NEEDS = 'a load that fails, then the same model asked for again'
BREAKS = 'the generator is left without a model'
EDITS = [
    ('generators/magicprompt.py', '''            self._generator = self._load_pipeline(model_name)
        else:''', '''            MagicPromptGenerator._model_name = model_name
            self._generator = self._load_pipeline(model_name)
        else:'''),
]
DEMO = r'''
import sys, types
fail = [None]
def fp(name, **kw):
    if fail[0]: raise OSError("no connection")
    return types.SimpleNamespace(name=name, config=types.SimpleNamespace(eos_token_id=0), eos_token_id=0)
class Pipe:
    def __init__(self, model): self.model = model
    def __call__(self, prompts, **kw): return [[{"generated_text": f"{p} {self.model.name}"}] for p in prompts]
tf = types.ModuleType("transformers")
tf.AutoTokenizer = tf.AutoModelForCausalLM = types.SimpleNamespace(from_pretrained=fp)
tf.pipeline = lambda task, tokenizer, model, **kw: Pipe(model)
tf.set_seed = lambda s: None
sys.modules["transformers"] = tf
from dynamicprompts.generators.magicprompt import MagicPromptGenerator

fail[0] = True
try: MagicPromptGenerator(model_name="m1"); assert False
except OSError: pass
fail[0] = None
g = MagicPromptGenerator(model_name="m1")
assert g.generate("a", 1) == ["a m1"]
'''
