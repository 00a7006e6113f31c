PROP = 'C15'
NEEDS = 'a prompt whose phrases all contain punctuation, such as a hyphen or an apostrophe'
BREAKS = 'no phrase is emphasised'
EDITS = [
    ('generators/attentiongenerator.py', '''    if all(c in string.punctuation for c in chunk):
''', '''    if not chunk or any(c in string.punctuation for c in chunk):
'''),
]
DEMO = r'''
import warnings; warnings.simplefilter("ignore")
from dynamicprompts.generators import attentiongenerator as a
a.get_chunker = lambda: a.cheap_chunker
r = a.AttentionGenerator().generate("sci-fi, o'brien's", 1)
assert "(" in r[0], r
'''
