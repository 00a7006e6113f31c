PROP = 'C06'
NEEDS = "two roots' items with the same name"
BREAKS = 'the earlier one wins'
EDITS = [
    ('wildcards/tree/build.py', '''                collection_map[combine_name_parts(root, name)] = collection
''', '''                collection_map.setdefault(combine_name_parts(root, name), collection)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

wm = WildcardManager(root_map={"": [{"w": ["a"]}, {"w": ["b"]}]})
assert list(wm.get_values("w").items) == ["b"], wm.get_values("w")
'''
