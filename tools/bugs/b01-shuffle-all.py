PROP = "C05"
NEEDS = "a weighted multi-choice that picks every option (e.g. {2$$9::a|1::b}), looked at over many draws"
BREAKS = "when all options are picked their order ignores the weights"
EDITS = [("utils.py", """    elif len(values) == 1:
        return values[:num_choices]
""", """    elif len(values) == num_choices or len(values) == 1:
        # Everything is wanted, so there's nothing to choose but the order
        chosen_values = values[:num_choices]
        rand.shuffle(chosen_values)
        return chosen_values
""")]
DEMO = '''
from dynamicprompts.generators import RandomPromptGenerator
ps = RandomPromptGenerator(seed=3).generate("{2$$-$$9::a|1::b}", 2000)
n = sum(p == "a-b" for p in ps)
assert 1700 < n < 1900, n
'''
