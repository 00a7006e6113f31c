PROP = 'C06'
NEEDS = 'listing the collection names, then creating a file, refreshing, listing again'
BREAKS = 'the new name is missing'
EDITS = [
    ('wildcards/wildcard_manager.py', '''        return set(self.tree.get_collection_names())
''', '''        if not getattr(self, "_collection_names", None):
            self._collection_names = set(self.tree.get_collection_names())
        return self._collection_names
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

lib = {"w": ["a", "b"]}
wm = WildcardManager(root_map={"": [lib]})
assert wm.get_collection_names() == {"w"}
lib["v"] = ["c"]
wm.clear_cache()
assert wm.get_collection_names() == {"w", "v"}
'''
