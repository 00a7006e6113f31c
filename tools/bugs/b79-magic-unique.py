PROP = 'C12'
NEEDS = 'two equal inner prompts in one request'
BREAKS = 'one result is missing and the others are misaligned'
EDITS = [
    ('generators/magicprompt.py', '''        prompts = self._generator(
            orig_prompts,
''', '''        orig_prompts = list(dict.fromkeys(orig_prompts))
        prompts = self._generator(
            orig_prompts,
'''),
]
DEMO = r'''
import re
from dynamicprompts.generators.magicprompt import MagicPromptGenerator
from dynamicprompts.generators.dummygenerator import DummyGenerator
g = object.__new__(MagicPromptGenerator)
g._max_prompt_length, g._temperature, g._batch_size = 100, 0.7, 1

g._generator = lambda prompts, **kw: [[{"generated_text": p + " fine"}] for p in prompts]
g._blocklist_regex = None
class Inner(DummyGenerator):
    def generate(self, *a, **k):
        return ["one", "two", "one"]
g._prompt_generator = Inner()
p = g.generate("x")
assert p == ["one fine", "two fine", "one fine"], p
'''
