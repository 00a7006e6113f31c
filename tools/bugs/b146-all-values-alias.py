PROP = 'C06'
NEEDS = 'a caller changing the list it got from get_all_values'
BREAKS = 'later lookups return the changed list'
EDITS = [
    ('wildcards/wildcard_manager.py', '''        return list(self.get_values(wildcard).string_values)
''', '''        return self.get_values(wildcard).string_values
'''),
]
DEMO = r'''
import warnings; warnings.simplefilter("ignore")
from dynamicprompts.wildcards import WildcardManager
wm = WildcardManager(root_map={"": [{"a": ["x", "y"]}]})
v = wm.get_all_values("a")
v.append("z"); v.remove("x")
assert wm.get_all_values("a") == ["x", "y"]
assert wm.get_values("a").string_values == ["x", "y"]
'''
