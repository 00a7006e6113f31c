PROP = 'C04'
NEEDS = 'one seed in a list for several prompts, and the same list used again for another number of prompts'
BREAKS = "the caller's list has grown, the next request is refused"
EDITS = [
    ('generators/randomprompt.py', '''                seeds = seeds * num_images
''', '''                seeds *= num_images
'''),
]
DEMO = r'''
from dynamicprompts.generators import RandomPromptGenerator
g = RandomPromptGenerator()
s = [5]
a = g.generate("{a|b|c|d|e} {1|2|3}", 3, seeds=s)
b = g.generate("{a|b|c|d|e} {1|2|3}", 2, seeds=s)
assert a[:2] == b
'''
