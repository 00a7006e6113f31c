PROP = 'C14'
NEEDS = 'an inner prompt of more than 250 characters'
BREAKS = 'only its beginning is searched for'
EDITS = [
    ('generators/feelinglucky.py', '''            query = search_query
''', '''            query = search_query[:250].strip()
'''),
]
DEMO = r'''
import types, requests
reply = {"images": [{"prompt": "a"}]}
sent = []
def get(url, params=None, **kw):
    sent.append(requests.Request("GET", url, params=params).prepare().url)
    r = types.SimpleNamespace(raise_for_status=lambda: None, json=lambda: reply)
    if isinstance(reply, Exception): raise reply
    return r
requests.get = get
from urllib.parse import urlsplit, parse_qs
def q(): return parse_qs(urlsplit(sent[-1]).query, keep_blank_values=True)["q"][0]
from dynamicprompts.generators import FeelingLuckyGenerator
from dynamicprompts.generators.promptgenerator import GeneratorException
g = FeelingLuckyGenerator()

t = "many words " * 40 + "end"
g.generate(t, 1)
assert q() == t, q()
'''
