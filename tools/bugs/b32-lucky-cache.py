PROP = 'C14'
NEEDS = 'the same query twice on one generator'
BREAKS = 'the second call is answered from the first response'
EDITS = [
    ('generators/feelinglucky.py', '''def query_lexica(query) -> dict:
''', '''@lru_cache(maxsize=16)
def query_lexica(query) -> dict:
'''),
    ('generators/feelinglucky.py', '''import random
''', '''import random
from functools import lru_cache
'''),
]
DEMO = r'''
import types, requests
reply = {"images": [{"prompt": "a"}]}
sent = []
def get(url, params=None, **kw):
    sent.append(requests.Request("GET", url, params=params).prepare().url)
    r = types.SimpleNamespace(raise_for_status=lambda: None, json=lambda: reply)
    if isinstance(reply, Exception): raise reply
    return r
requests.get = get
from urllib.parse import urlsplit, parse_qs
def q(): return parse_qs(urlsplit(sent[-1]).query, keep_blank_values=True)["q"][0]
from dynamicprompts.generators import FeelingLuckyGenerator
from dynamicprompts.generators.promptgenerator import GeneratorException
g = FeelingLuckyGenerator()

assert g.generate("x", 1) == ["a"]
reply = {"images": [{"prompt": "b"}]}
assert g.generate("x", 1) == ["b"]
'''
