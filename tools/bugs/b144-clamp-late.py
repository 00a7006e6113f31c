PROP = 'C05'
NEEDS = 'a range of picks that goes beyond the number of options'
BREAKS = 'the largest number of picks is drawn too often'
EDITS = [
    ('samplers/random.py', '''            command = command.adjust_range()

            num_choices = min(
                command.max_bound,
                self._get_variant_num_choices(command, context),
            )
''', '''            num_choices = min(
                len(command.values),
                self._get_variant_num_choices(command, context),
            )
'''),
]
DEMO = r'''
from dynamicprompts.generators import RandomPromptGenerator
r = RandomPromptGenerator(seed=3).generate("{1-9$$,$$a|b}", 2000)
n = sum("," in x for x in r)
assert 850 < n < 1150, n
'''
