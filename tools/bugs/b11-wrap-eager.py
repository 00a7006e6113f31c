PROP = 'C17'
NEEDS = 'a combinatorial wrap whose inner part has very many prompts, few prompts requested'
BREAKS = 'all inner prompts are produced before the first one is returned'
EDITS = [
    ('samplers/combinatorial.py', '''        for wrapper_result in context.sample_prompts(command.wrapper):
            wrap = wrapper_result.as_wrapper()
            for inner in context.sample_prompts(command.inner):
''', '''        inners = list(context.sample_prompts(command.inner))
        for wrapper_result in context.sample_prompts(command.wrapper):
            wrap = wrapper_result.as_wrapper()
            for inner in inners:
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import resource
resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
p = CombinatorialPromptGenerator().generate("%{(...)$$" + "{a|b|c|d|e|f|g|h}" * 9 + "}", 2)
assert p == ["(aaaaaaaaa)", "(aaaaaaaab)"], p
'''
