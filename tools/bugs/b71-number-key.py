PROP = 'C06'
NEEDS = "a YAML file with a key that isn't a text"
BREAKS = 'the keys after it are ignored too'
EDITS = [
    ('wildcards/collection/structured.py', '''        if not isinstance(name, str):
            continue
''', '''        if not isinstance(name, str):
            break
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import tempfile
with tempfile.TemporaryDirectory() as d:
    open(d + "/x.yaml", "w").write("a: [x]\n1: [y]\nb: [z]\n")
    v = WildcardManager(d).get_collection_names()
    assert v == {"a", "b"}, v
'''
