PROP = 'C17'
NEEDS = 'one weight far above the others in a multi-choice'
BREAKS = 'picking goes on until another option happens to be drawn'
EDITS = [
    ('utils.py', '''    if len(values) < num_choices:
''', '''    if rand is not random and weights and max(weights) > min(weights) > 0:
        # Drawing again is cheaper than copying
        order: list[int] = []
        while len(order) < min(num_choices, len(values)):
            index = rand.choices(range(len(values)), weights=weights)[0]
            if index not in order:
                order.append(index)
        return [values[index] for index in order]

    if len(values) < num_choices:
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import signal
signal.alarm(20)
p = RandomPromptGenerator(seed=1).generate("{2$$10000000000::a|b}", 1)
'''
