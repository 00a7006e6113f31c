PROP = 'C13'
NEEDS = 'constructing a generator for another model while one is loaded'
BREAKS = 'the loaded model is used'
EDITS = [
    ('generators/magicprompt.py', '''        self.set_model(model_name)

''', '''        if MagicPromptGenerator.generator is None:
            self.set_model(model_name)
        else:  # Loading takes long
            self._generator = MagicPromptGenerator.generator

'''),
]
DEMO = r'''
import sys, types
loads = []
t = types.ModuleType("transformers")
class Tok:
    eos_token_id = 7
    def __init__(self, n): self.name = n
    @classmethod
    def from_pretrained(cls, n):
        loads.append(("tok", n)); return cls(n)
class Model:
    def __init__(self, n):
        self.name = n
        self.config = types.SimpleNamespace(eos_token_id=7)
    @classmethod
    def from_pretrained(cls, n):
        loads.append(("model", n)); return cls(n)
fail = []
def pipeline(task, tokenizer, model, device=None, pad_token_id=None, **kw):
    if fail:
        raise fail.pop()
    def run(prompts, **kw):
        return [[{"generated_text": f"{p} {tokenizer.name} {model.name}"}] for p in prompts]
    return run
t.AutoTokenizer, t.AutoModelForCausalLM, t.pipeline, t.set_seed = Tok, Model, pipeline, lambda s: None
sys.modules["transformers"] = t
from dynamicprompts.generators.magicprompt import MagicPromptGenerator

g = MagicPromptGenerator(model_name="alpha")
g = MagicPromptGenerator(model_name="beta")
assert g.generate("p", 1) == ["p beta beta"], g.generate("p", 1)
'''
