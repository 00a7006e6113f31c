PROP = 'C03'
NEEDS = 'the same template generated twice in a row by the same generator, without seeds, with a cyclical part'
BREAKS = 'the second call goes on where the first one stopped'
EDITS = [
    ('generators/randomprompt.py', '''            prompts = [
                str(p) for p in self._context.sample_prompts(template, num_images)
            ]
''', '''            if getattr(self, "_last", (None,))[0] != template:
                self._last = (template, iter(self._context.sample_prompts(template)))
            prompts = [str(p) for _, p in zip(range(num_images), self._last[1])]
            if "@" not in template:
                self._last = (None,)  # Nothing to go on with
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

g = RandomPromptGenerator()
a = g.generate("{@a|b|c}", 2)
assert a == ["a", "b"], a
a = g.generate("{@a|b|c}", 2)
assert a == ["a", "b"], a
'''
