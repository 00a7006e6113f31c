PROP = "C05"
NEEDS = "a wildcard whose weights differ only in their fraction (1 and 1.9)"
BREAKS = "fractional weight differences are ignored: the values are drawn uniformly"
EDITS = [("wildcards/values.py", """            weights_seen.add(weight)
""", """            weights_seen.add(int(weight) if weight >= 1 else weight)
""")]
DEMO = '''
from dynamicprompts.generators import RandomPromptGenerator
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.collection.list import ListWildcardCollection
from dynamicprompts.wildcards.item import WildcardItem
c = ListWildcardCollection([WildcardItem("a", 1.9), WildcardItem("b", 1.0)])
g = RandomPromptGenerator(WildcardManager(root_map={"": [{"w": c}]}), seed=3)
n = sum(p == "a" for p in g.generate("__w__", 4000))
assert 2500 < n < 2750, n
'''
