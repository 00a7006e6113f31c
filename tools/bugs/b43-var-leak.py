PROP = 'C11'
NEEDS = 'a template that assigns a variable, then one that uses it without assigning it, on the same generator'
BREAKS = 'the value of the earlier call is used'
EDITS = [
    ('sampling_context.py', '''            return new_commands, self.with_variables(new_variables)
''', '''            self.variables.update(new_variables)
            return new_commands, self
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

g = RandomPromptGenerator()
assert g.generate("${x=a}${x}", 1) == ["a"]
assert g.generate("${x:b} is it", 1) == ["b is it"]
'''
