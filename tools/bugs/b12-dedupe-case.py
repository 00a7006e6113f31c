PROP = 'C02'
NEEDS = 'a multi-choice between options that differ in case only'
BREAKS = 'combinations of such options are missing'
EDITS = [
    ('sampling_result.py', '''return (self.text,)''', '''return (self.text.lower(),)'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

p = CombinatorialPromptGenerator().generate("{2$$x|X|y}", None)
assert p == ["x,X", "x,y", "X,x", "X,y", "y,x", "y,X"], p
'''
