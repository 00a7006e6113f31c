PROP = 'C12'
NEEDS = 'a blocked result that becomes fine on a retry while another one stays blocked'
BREAKS = 'the fine one is requested again and replaced'
EDITS = [
    ('generators/magicprompt.py', '''                indexed_prompts_to_regenerate = [
                    (i, prompt)
                    for i, prompt in enumerate(magic_prompts)
                    if self._blocklist_regex.search(prompt)
                ]

                if not indexed_prompts_to_regenerate:
                    break
''', '''                if not any(self._blocklist_regex.search(p) for p in magic_prompts):
                    indexed_prompts_to_regenerate = []
                    break
                # Prompts that were fine can't become blocked
                indexed_prompts_to_regenerate = indexed_prompts_to_regenerate or [
                    (i, prompt)
                    for i, prompt in enumerate(magic_prompts)
                    if self._blocklist_regex.search(prompt)
                ]
'''),
]
DEMO = r'''
import re
from dynamicprompts.generators.magicprompt import MagicPromptGenerator
g = object.__new__(MagicPromptGenerator)
calls = []
def model(prompts, **kw):
    calls.append(list(prompts))
    return [[{"generated_text": p + (" bad" if len(calls) == 1 or (p == "two" and len(calls) == 2) else " fine%d" % len(calls))}] for p in prompts]
g._generator = model
g._max_prompt_length, g._temperature, g._batch_size = 100, 0.7, 1
g._blocklist_regex = re.compile("bad")
from dynamicprompts.generators.dummygenerator import DummyGenerator
class Inner(DummyGenerator):
    def generate(self, *a, **k):
        return ["one", "two"]
g._prompt_generator = Inner()
p = g.generate("x")
assert p == ["one fine2", "two fine3"], p
assert calls == [["one", "two"], ["one", "two"], ["two"]], calls
'''
