PROP = 'C02'
NEEDS = 'a weighted wildcard value in a combinatorial template'
BREAKS = 'it is produced once instead of as often as its weight says'
EDITS = [
    ('samplers/combinatorial.py', '''        for val in values.iterate_string_values_weighted():
            # Parse and generate prompts from wildcard value
            yield from context.sample_prompts(val)
''', '''        seen = set()
        for val in values.iterate_string_values_weighted():
            # Parse and generate prompts from wildcard value
            if val not in seen:
                seen.add(val)
                yield from context.sample_prompts(val)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

wm = WildcardManager(root_map={"": [{"w": ListWildcardCollection(["a", WildcardItem("b", 2)])}]})
p = CombinatorialPromptGenerator(wm).generate("__w__", None)
assert p == ["a", "b", "b"], p
'''
