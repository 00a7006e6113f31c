PROP = 'C16'
NEEDS = 'a request made while another one is being rendered on the same generator (threads, or a context function)'
BREAKS = 'blocks of one request appear in the other'
EDITS = [
    ('generators/jinjagenerator.py', '''        prompt_blocks: list[str] = []
''', '''        prompt_blocks = self._prompt_blocks
        prompt_blocks.clear()
'''),
    ('generators/jinjagenerator.py', '''            prompts = prompt_blocks
''', '''            prompts = list(prompt_blocks)
'''),
    ('generators/jinjagenerator.py', '''        self._context = context or {}
''', '''        self._context = context or {}
        self._prompt_blocks: list[str] = []
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

ctx = {"x": 1}
g = JinjaGenerator(context=ctx)
ctx["other"] = lambda: g.generate("{% prompt %}inner{% endprompt %}")[0]
p = g.generate("{% prompt %}one{% endprompt %}{{ other() }}{% prompt %}two{% endprompt %}")
assert p == ["one", "two"], p
'''
