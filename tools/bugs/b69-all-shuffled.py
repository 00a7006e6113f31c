PROP = 'C05'
NEEDS = 'a multi-choice that takes all of its options, with weights'
BREAKS = 'the order of the picks ignores the weights'
EDITS = [
    ('utils.py', '''    else:
        chosen_values = []
        for _ in range(num_choices):
''', '''    elif len(values) == num_choices:  # They're all going to be chosen
        rand.shuffle(values)
        return values
    else:
        chosen_values = []
        for _ in range(num_choices):
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

p = RandomPromptGenerator(seed=1).generate("{3$$1000::a|b|c}", 200)
assert sum(x.startswith("a") for x in p) > 180, p
'''
