PROP = 'C13'
NEEDS = 'two generators with different models'
BREAKS = "the first one reports the second one's model"
EDITS = [
    ('generators/magicprompt.py', '''        assert self._model_name
        return self._model_name
''', '''        model_name = MagicPromptGenerator._model_name
        assert model_name
        return model_name
'''),
]
DEMO = r'''
import sys, types
fail = [None]
def fp(name, **kw):
    if fail[0]: raise OSError("no connection")
    return types.SimpleNamespace(name=name, config=types.SimpleNamespace(eos_token_id=0), eos_token_id=0)
class Pipe:
    def __init__(self, model): self.model = model
    def __call__(self, prompts, **kw): return [[{"generated_text": f"{p} {self.model.name}"}] for p in prompts]
tf = types.ModuleType("transformers")
tf.AutoTokenizer = tf.AutoModelForCausalLM = types.SimpleNamespace(from_pretrained=fp)
tf.pipeline = lambda task, tokenizer, model, **kw: Pipe(model)
tf.set_seed = lambda s: None
sys.modules["transformers"] = tf
from dynamicprompts.generators.magicprompt import MagicPromptGenerator

a = MagicPromptGenerator(model_name="m1")
b = MagicPromptGenerator(model_name="m2")
assert (a.model_name, b.model_name) == ("m1", "m2")
assert a.generate("x", 1) == ["x m1"]
'''
