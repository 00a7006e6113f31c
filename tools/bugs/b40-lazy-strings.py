PROP = 'C10'
NEEDS = 'two threads using the same wildcard for the first time, or an interruption while it is used for the first time'
BREAKS = 'a half-built list of values is used (and kept)'
EDITS = [
    ('wildcards/values.py', '''    @cached_property
    def string_values(self) -> list[str]:
        """
        String values, no weights, of the items in this collection.
        """
        return [str(item) for item in self.items]
''', '''    @property
    def string_values(self) -> list[str]:
        """
        String values, no weights, of the items in this collection.
        """
        if "_strings" not in self.__dict__:
            self.__dict__["_strings"] = []
            for item in self.items:
                self.__dict__["_strings"].append(str(item))
        return self.__dict__["_strings"]
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

wm = WildcardManager(root_map={"": [{"w": ["v%d" % i for i in range(10)]}]})
want = list(wm.get_values("w").string_values)
wm.clear_cache()
from dynamicprompts.wildcards.values import WildcardValues
got = []
class Item(WildcardItem):
    def __str__(self):
        if self.content == "v5" and not got:
            got.append(None)
            got.append(list(vals.string_values))  # "another thread", at this point
        return self.content
vals = WildcardValues(tuple(Item(w) for w in want))
assert vals.string_values == want and got[1] == want, got
'''
