PROP = 'C02'
NEEDS = 'options of a multi-choice that differ in surrounding blanks only'
BREAKS = 'combinations of them are left out'
EDITS = [
    ('sampling_result.py', '''        return (self.text,)
''', '''        return (self.text.strip(),)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

p = CombinatorialPromptGenerator().generate("{2$$a|a }")
assert len(p) == 2, p
'''
