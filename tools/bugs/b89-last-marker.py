PROP = 'C01'
NEEDS = 'a wrapper with two markers'
BREAKS = 'the text is put at the last marker'
EDITS = [
    ('commands/wrap_command.py', '''    match = WRAP_MARKER_RE.search(s)
    if match is None:''', '''    match = None
    for match in WRAP_MARKER_RE.finditer(s):
        pass
    if match is None:'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

p = RandomPromptGenerator(seed=1).generate("%{a … b … c$$x}", 1)
assert p == ["a x b … c"], p
'''
