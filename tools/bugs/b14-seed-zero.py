PROP = 'C04'
NEEDS = 'a generator made with seed 0'
BREAKS = 'the seed is taken for no seed, prompts are not repeatable'
EDITS = [
    ('generators/randomprompt.py', '''    if seed is not None:
        rand.seed(seed)
''', '''    if seed:
        rand.seed(seed)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

t = "{" + "|".join(map(str, range(1000))) + "}"
a, b = (RandomPromptGenerator(seed=0).generate(t, 5) for _ in range(2))
assert a == b, (a, b)
'''
