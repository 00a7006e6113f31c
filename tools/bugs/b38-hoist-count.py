PROP = 'C04'
NEEDS = 'per-prompt seeds and a multi-choice with a range'
BREAKS = 'the number of picks of every prompt is decided by the first seed'
EDITS = [
    ('samplers/random.py', '''        while True:
            command = command.adjust_range()

            num_choices = min(
                command.max_bound,
                self._get_variant_num_choices(command, context),
            )

''', '''        command = command.adjust_range()
        num_choices = min(
            command.max_bound,
            self._get_variant_num_choices(command, context),
        )
        while True:
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

t = "{1-4$$a|b|c|d}"
for i in range(30):
    a = RandomPromptGenerator().generate(t, 2, seeds=[i, 7])
    b = RandomPromptGenerator().generate(t, 2, seeds=[i + 1, 7])
    assert a[1] == b[1], (a, b)
'''
