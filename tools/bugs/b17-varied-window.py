PROP = 'C05'
NEEDS = 'a wildcard whose first ten values have equal weights and a later one another'
BREAKS = 'all values are drawn equally often'
EDITS = [
    ('wildcards/values.py', '''        for item in self.items:
            weight = getattr(item, "weight", 1)
            weights_seen.add(weight)
''', '''        for item in self.items[:10]:
            weight = getattr(item, "weight", 1)
            weights_seen.add(weight)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

wm = WildcardManager(root_map={"": [{"w": ListWildcardCollection(["v%02d" % i for i in range(12)] + [WildcardItem("z", 88)])}]})
p = RandomPromptGenerator(wm, seed=1).generate("__w__", 2000)
assert p.count("z") > 1500, p.count("z")
'''
