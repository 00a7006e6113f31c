PROP = 'C05'
NEEDS = 'an option with weight 0'
BREAKS = 'it is drawn like one without weight'
EDITS = [
    ('parser/parse.py', '''        VariantOption(value=v["val"], weight=float(v["weight"][0]))
''', '''        VariantOption(value=v["val"], weight=float(v["weight"][0]) or 1.0)
'''),
]
DEMO = r'''
from dynamicprompts.generators import RandomPromptGenerator
assert set(RandomPromptGenerator(seed=1).generate("{0::a|b|c}", 300)) == {"b", "c"}
'''
