PROP = 'C12'
NEEDS = 'two results with the same blocked text'
BREAKS = 'the second one is never requested again, the first one twice'
EDITS = [
    ('generators/magicprompt.py', '''                indexed_prompts_to_regenerate = [
                    (i, prompt)
                    for i, prompt in enumerate(magic_prompts)
                    if self._blocklist_regex.search(prompt)
                ]
''', '''                indexed_prompts_to_regenerate = [
                    (magic_prompts.index(prompt), prompt)
                    for prompt in magic_prompts
                    if self._blocklist_regex.search(prompt)
                ]
'''),
]
DEMO = r'''
import re
from dynamicprompts.generators.magicprompt import MagicPromptGenerator
g = object.__new__(MagicPromptGenerator)
calls = []
def model(prompts, **kw):
    calls.append(list(prompts))
    return [[{"generated_text": "bad" if len(calls) == 1 else p + " fine"}] for p in prompts]
g._generator = model
g._max_prompt_length, g._temperature, g._batch_size = 100, 0.7, 1
g._blocklist_regex = re.compile("bad")
from dynamicprompts.generators.dummygenerator import DummyGenerator
class Inner(DummyGenerator):
    def generate(self, *a, **k):
        return ["one", "two"]
g._prompt_generator = Inner()
p = g.generate("x")
assert p == ["one fine", "two fine"], p
assert calls == [["one", "two"], ["one", "two"]], calls
'''
