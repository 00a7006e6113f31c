PROP = 'C13'
NEEDS = 'two models of the same name by different owners'
BREAKS = 'the second one is taken for the first one'
EDITS = [
    ('generators/magicprompt.py', '''        if model_name != MagicPromptGenerator._model_name:
''', '''        loaded_name = (MagicPromptGenerator._model_name or "").split("/")[-1]
        if model_name.split("/")[-1] != loaded_name:  # Don't load renamed models again
'''),
]
DEMO = r'''
import sys, types
loads = []
t = types.ModuleType("transformers")
class Tok:
    eos_token_id = 7
    def __init__(self, n): self.name = n
    @classmethod
    def from_pretrained(cls, n):
        loads.append(("tok", n)); return cls(n)
class Model:
    def __init__(self, n):
        self.name = n
        self.config = types.SimpleNamespace(eos_token_id=7)
    @classmethod
    def from_pretrained(cls, n):
        loads.append(("model", n)); return cls(n)
fail = []
def pipeline(task, tokenizer, model, device=None, pad_token_id=None, **kw):
    if fail:
        raise fail.pop()
    def run(prompts, **kw):
        return [[{"generated_text": f"{p} {tokenizer.name} {model.name}"}] for p in prompts]
    return run
t.AutoTokenizer, t.AutoModelForCausalLM, t.pipeline, t.set_seed = Tok, Model, pipeline, lambda s: None
sys.modules["transformers"] = t
from dynamicprompts.generators.magicprompt import MagicPromptGenerator

g = MagicPromptGenerator(model_name="me/alpha")
assert g.generate("p", 1) == ["p me/alpha me/alpha"]
g = MagicPromptGenerator(model_name="you/alpha")
assert g.generate("p", 1) == ["p you/alpha you/alpha"], g.generate("p", 1)
'''
