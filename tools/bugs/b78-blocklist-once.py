PROP = 'C12'
NEEDS = 'a reply that is blocked again'
BREAKS = 'only first-time blocked results are requested again up to the limit'
EDITS = [
    ('generators/magicprompt.py', '''            for _ in range(max_attempts):
''', '''            for _ in range(max_attempts - 1):
'''),
]
DEMO = r'''
import re
from dynamicprompts.generators.magicprompt import MagicPromptGenerator
from dynamicprompts.generators.dummygenerator import DummyGenerator
g = object.__new__(MagicPromptGenerator)
g._max_prompt_length, g._temperature, g._batch_size = 100, 0.7, 1

calls = []
def model(prompts, **kw):
    calls.append(list(prompts))
    return [[{"generated_text": "bad" if len(calls) < 4 else p + " fine"}] for p in prompts]
g._generator = model
g._blocklist_regex = re.compile("bad")
g._prompt_generator = DummyGenerator()
p = g.generate("x", max_attempts=3)
assert p == ["x fine"], p
'''
