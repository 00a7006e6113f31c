PROP = 'C04'
NEEDS = 'two generators with the same seed used alternately'
BREAKS = 'they share one random source and disturb each other'
EDITS = [
    ('generators/randomprompt.py', '''def _get_random(*, seed: int | None, unlink_seed_from_prompt: bool) -> Random:
    if unlink_seed_from_prompt:
        return DEFAULT_RANDOM
    rand = Random()
    if seed is not None:
        rand.seed(seed)
    return rand
''', '''_seeded: WeakValueDictionary[int, Random] = WeakValueDictionary()


def _get_random(*, seed: int | None, unlink_seed_from_prompt: bool) -> Random:
    if unlink_seed_from_prompt:
        return DEFAULT_RANDOM
    if seed is None:
        return Random()
    rand = _seeded.get(seed)
    if rand is None:
        rand = _seeded[seed] = Random()
    rand.seed(seed)
    return rand
'''),
    ('generators/randomprompt.py', '''from random import Random

''', '''from random import Random
from weakref import WeakValueDictionary

'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

t = "{%s}" % "|".join(map(str, range(50)))
a, b = RandomPromptGenerator(seed=3), RandomPromptGenerator(seed=3)
p, q = [], []
for _ in range(5):
    p += a.generate(t, 1)
    q += b.generate(t, 1)
assert p == q, (p, q)
'''
