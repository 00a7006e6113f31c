PROP = 'C01'
NEEDS = 'several empty options in a row at an end of a multi-choice'
BREAKS = 'more than one separator is dropped there'
EDITS = [
    ('sampling_result.py', '''            joined = removeprefix(joined, separator)
''', '''            while joined.startswith(separator):
                joined = removeprefix(joined, separator)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

got = {p for s in range(60) for p in RandomPromptGenerator(seed=s).generate("{3$$,$$a|${x:}|${y:}}", 1)}
assert ",a" in got, got
'''
