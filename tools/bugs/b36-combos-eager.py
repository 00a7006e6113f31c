PROP = 'C17'
NEEDS = 'a multi-choice of many options'
BREAKS = 'all permutations are built before the first prompt'
EDITS = [
    ('samplers/combinatorial.py', '''                for combo in variant_command.get_value_combinations(bound):
''', '''                combos = list(variant_command.get_value_combinations(bound))
                for combo in combos:
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import resource
resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
p = CombinatorialPromptGenerator().generate("{9$$" + "|".join("abcdefghijklm") + "}", 1)
assert p == ["a,b,c,d,e,f,g,h,i"], p
'''
