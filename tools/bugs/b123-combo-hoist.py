PROP = 'C02'
NEEDS = 'a pick of several options of which one is a random or cyclical choice, enumerated combinatorially'
BREAKS = 'the random part is drawn once for all combinations with the other options, so prompts are missing or repeated'
EDITS = [
    ('samplers/combinatorial.py', '''        for rest_prompt in _combo_to_prompt(sampling_context, c_rest):
            val = next(gen)
            yield [val] + rest_prompt
''', '''        val = next(gen)
        for rest_prompt in _combo_to_prompt(sampling_context, c_rest):
            yield [val] + rest_prompt
'''),
]
DEMO = r'''
from dynamicprompts.generators import CombinatorialPromptGenerator
g = CombinatorialPromptGenerator()
a = g.generate("{2$$ $$ {@a|b|c}|{x|y|z}}", 3)
assert a == ["a x", "b y", "c z"], a
'''
