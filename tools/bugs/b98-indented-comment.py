PROP = 'C06'
NEEDS = 'an indented comment in a text file'
BREAKS = 'it becomes a value'
EDITS = [
    ('utils.py', '''line.strip() == "" or line.strip().startswith("#")''', '''line.strip() == "" or line.startswith("#")'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import tempfile
with tempfile.TemporaryDirectory() as d:
    open(d + "/w.txt", "w").write("a\n  # b\n")
    v = list(WildcardManager(d).get_values("w").items)
    assert v == ["a"], v
'''
