PROP = 'C15'
NEEDS = 'two equal inner prompts'
BREAKS = 'only one result is returned for them'
EDITS = [
    ('generators/attentiongenerator.py', '''        new_prompts = [self._add_emphasis(p) for p in prompts]

        return new_prompts
''', '''        emphasized = {p: self._add_emphasis(p) for p in prompts}
        new_prompts = list(emphasized.values())

        return new_prompts
'''),
]
DEMO = r'''
import warnings; warnings.simplefilter("ignore")
from dynamicprompts.generators.attentiongenerator import AttentionGenerator
class Inner:
    def generate(self, *a, **k): return ["a cat", "a dog", "a cat"]
r = AttentionGenerator(Inner()).generate()
assert len(r) == 3 and ["cat" in x for x in r] == [True, False, True]
'''
