PROP = 'C11'
NEEDS = 'being interrupted while a parser is built'
BREAKS = 'the unfinished parser stays cached, all later parsing fails'
EDITS = [
    ('parser/parse.py', '''        parser = create_parser(parser_config=parser_config)
        _parser_cache[parser_config] = parser
        return parser
''', '''        parser = _parser_cache[parser_config] = pp.Forward()
        parser <<= create_parser(parser_config=parser_config)
        return parser
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

from dynamicprompts.parser import parse as pm
real = pm._configure_wildcard
def boom(*a, **k):
    pm._configure_wildcard = real
    raise KeyboardInterrupt
pm._configure_wildcard = boom
pm._parser_cache.clear()
try:
    pm.parse("{a|b}")
except KeyboardInterrupt:
    pass
p = CombinatorialPromptGenerator().generate("{a|b}", 2)
assert p == ["a", "b"], p
'''
