PROP = 'C06'
NEEDS = 'a wildcard pattern with ? or [] but no *'
BREAKS = 'nothing matches'
EDITS = [
    ('wildcards/tree/tree.py', '''        for name, coll in self.map.items():
            if fnmatch(name, pattern):
                yield coll
''', '''        if "*" not in pattern:
            if pattern in self.map:
                yield self.map[pattern]
            return
        for name, coll in self.map.items():
            if fnmatch(name, pattern):
                yield coll
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

wm = WildcardManager(root_map={"": [{"w1": ["a"], "w2": ["b"], "w3": ["c"]}]})
assert list(wm.get_values("w?")) == ["a", "b", "c"]
assert list(wm.get_values("w[12]")) == ["a", "b"]
'''
