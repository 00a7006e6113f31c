PROP = 'C14'
NEEDS = 'a reply that is valid JSON of an unexpected shape'
BREAKS = "a TypeError instead of the generator's own error"
EDITS = [
    ('generators/feelinglucky.py', '''        except Exception as e:
''', '''        except (OSError, LookupError, ValueError) as e:
'''),
]
DEMO = r'''
import types, requests
reply = {"images": [{"prompt": "a"}]}
sent = []
def get(url, params=None, **kw):
    sent.append(requests.Request("GET", url, params=params).prepare().url)
    r = types.SimpleNamespace(raise_for_status=lambda: None, json=lambda: reply)
    if isinstance(reply, Exception): raise reply
    return r
requests.get = get
from urllib.parse import urlsplit, parse_qs
def q(): return parse_qs(urlsplit(sent[-1]).query, keep_blank_values=True)["q"][0]
from dynamicprompts.generators import FeelingLuckyGenerator
from dynamicprompts.generators.promptgenerator import GeneratorException
g = FeelingLuckyGenerator()

for reply in ({"images": [{"prompt": "a"}]}, {"images": None}, [1], {"images": ["x"]}, None):
    try:
        assert g.generate("x", 2) == ["a", "a"]
    except GeneratorException:
        pass
'''
