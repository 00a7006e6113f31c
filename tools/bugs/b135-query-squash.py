PROP = 'C14'
NEEDS = 'an inner prompt with several blanks in a row or a line break'
BREAKS = 'other text is sent'
EDITS = [
    ('generators/feelinglucky.py', '''            query = search_query
''', '''            query = " ".join(search_query.split())
'''),
]
DEMO = r'''
from dynamicprompts.generators import feelinglucky as f
sent = []
f.query_lexica = lambda q: sent.append(q) or {"images": [{"prompt": "x"}]}
f.FeelingLuckyGenerator().generate("a  b\nc ", 1)
assert sent == ["a  b\nc "], sent
'''
