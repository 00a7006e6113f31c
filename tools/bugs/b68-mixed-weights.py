PROP = 'C05'
NEEDS = 'a wildcard with plain values and weighted ones of one weight'
BREAKS = 'the weights are ignored'
EDITS = [
    ('wildcards/values.py', '''        for item in self.items:
            weight = getattr(item, "weight", 1)
            weights_seen.add(weight)
''', '''        for item in self.items:
            if isinstance(item, str):
                continue
            weights_seen.add(item.weight)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

wm = WildcardManager(root_map={"": [{"w": ListWildcardCollection(["a", WildcardItem("b", 1000.0)])}]})
p = RandomPromptGenerator(wm, seed=1).generate("__w__", 200)
assert p.count("a") < 20, p.count("a")
'''
