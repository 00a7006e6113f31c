PROP = 'C01'
NEEDS = 'an earlier generator with delimiters that differ in those of variables only'
BREAKS = 'its parser is used, the variables are taken for text'
EDITS = [
    ('parser/parse.py', '''_parser_cache: WeakKeyDictionary[ParserConfig, pp.ParserElement] = WeakKeyDictionary()
''', '''_parser_cache: dict[tuple[str, ...], pp.ParserElement] = {}
'''),
    ('parser/parse.py', '''    try:
        return _parser_cache[parser_config]
''', '''    key = (
        parser_config.variant_start,
        parser_config.variant_end,
        parser_config.wildcard_wrap,
        parser_config.wrap_start,
    )
    try:
        return _parser_cache[key]
'''),
    ('parser/parse.py', '''        _parser_cache[parser_config] = parser
''', '''        _parser_cache[key] = parser
'''),
]
DEMO = r'''
from dynamicprompts.generators import RandomPromptGenerator
from dynamicprompts.parser.config import ParserConfig
RandomPromptGenerator(parser_config=ParserConfig(variable_start="$<", variable_end=">")).generate("a {b|c}", 1)
r = RandomPromptGenerator(seed=1).generate("${v=x} ${v} {b|c}", 1)
assert "$" not in r[0], r
'''
