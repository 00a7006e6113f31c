PROP = 'C01'
NEEDS = 'a choice with 0 as the upper bound'
BREAKS = 'options are picked though none may be'
EDITS = [
    ('parser/parse.py', '''            if "upper" in expr["range"]:
                ubound = int(expr["range"]["upper"])
''', '''            ubound = int(rng.get("upper", 0)) or max_options
'''),
]
DEMO = r'''
from dynamicprompts.generators import RandomPromptGenerator
assert set(RandomPromptGenerator(seed=1).generate("{0-0$$a|b}x", 20)) == {"x"}
'''
