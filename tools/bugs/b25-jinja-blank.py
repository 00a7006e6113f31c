PROP = 'C16'
NEEDS = 'a template with an empty prompt block next to others'
BREAKS = 'the empty one is left out'
EDITS = [
    ('jinja_extensions.py', '''        prompt_blocks.append(value)
''', '''        if value.strip():
            prompt_blocks.append(value)
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

p = JinjaGenerator(context={"x": ""}).generate("{% prompt %}a{% endprompt %}{% prompt %}{{ x }}{% endprompt %}", 2)
assert p == ["a", "", "a", ""], p
'''
