PROP = 'C05'
NEEDS = 'wildcard values with weights of more than one decimal'
BREAKS = 'they are drawn with rounded weights (0.04: never)'
EDITS = [
    ('wildcards/values.py', '''        weights = [getattr(item, "weight", 1) for item in self.items]
''', '''        weights = [round(getattr(item, "weight", 1), 1) for item in self.items]
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

wm = WildcardManager(root_map={"": [{"w": ListWildcardCollection([WildcardItem("a", 0.25), WildcardItem("b", 0.75)])}]})
p = RandomPromptGenerator(wm, seed=1).generate("__w__", 40000)
n = p.count("a")
assert abs(n - 10000) < 700, n
'''
