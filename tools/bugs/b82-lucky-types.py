PROP = 'C14'
NEEDS = 'a response of an unexpected shape'
BREAKS = "another error than the generator's own"
EDITS = [
    ('generators/feelinglucky.py', '''        except Exception as e:''', '''        except (OSError, LookupError, ValueError) as e:'''),
]
DEMO = r'''
import types, requests
reply = {"images": [{"prompt": "a"}]}
def get(url, params=None, **kw):
    if isinstance(reply, Exception): raise reply
    return types.SimpleNamespace(raise_for_status=lambda: None, json=lambda: reply, status_code=200)
requests.get = get
from dynamicprompts.generators import FeelingLuckyGenerator
from dynamicprompts.generators.promptgenerator import GeneratorException
g = FeelingLuckyGenerator()

reply = ["surprise"]
try:
    g.generate("x", 1)
except GeneratorException:
    pass
'''
