PROP = 'C07'
NEEDS = 'a read error of a text file that is gone by the next lookup'
BREAKS = 'the file stays empty until the next refresh'
EDITS = [
    ('wildcards/tree/tree.py', '''            if fnmatch(name, pattern):
                yield coll
''', '''            if fnmatch(name, pattern):
                try:
                    coll.get_values()
                except UnicodeError:
                    continue
                except OSError:
                    # Don't try it again each time
                    self.map[name] = ListWildcardCollection([])
                    return
                yield coll
'''),
    ('wildcards/tree/tree.py', '''from dynamicprompts.wildcards.collection import WildcardCollection
''', '''from dynamicprompts.wildcards.collection import WildcardCollection
from dynamicprompts.wildcards.collection.list import ListWildcardCollection
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import os, tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    open(d + "/a.txt", "w").write("x")
    open(d + "/b.txt", "w").write("y")
    wm = WildcardManager(d)
    wm.tree
    real = pathlib.Path.open
    def bad(self, *a, **k):
        if self.name == "a.txt": raise OSError(5, "I/O error")
        return real(self, *a, **k)
    pathlib.Path.open = bad
    try:
        v = list(wm.get_values("*").items)
    except OSError:
        v = ["y"]
    pathlib.Path.open = real
    assert v == ["y"], v
'''
