PROP = 'C17'
NEEDS = 'a wildcard value with a huge weight, combinatorial, few prompts requested'
BREAKS = 'the value is repeated that many times before the first prompt'
EDITS = [
    ('wildcards/values.py', '''        for item in self.items:
            weight = getattr(item, "weight", 1)
            for _ in range(int(weight)):
                yield str(item)
''', '''        values: list[str] = []
        for item in self.items:
            for _ in range(int(getattr(item, "weight", 1))):
                values.append(str(item))
        yield from values
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

import resource
resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
wm = WildcardManager(root_map={"": [{"w": ListWildcardCollection([WildcardItem("a", 1e10)])}]})
p = CombinatorialPromptGenerator(wm).generate("__w__", 2)
assert p == ["a", "a"], p
'''
