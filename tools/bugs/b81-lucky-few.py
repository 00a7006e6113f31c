PROP = 'C14'
NEEDS = 'a response with fewer images than prompts were asked for'
BREAKS = 'too few prompts are returned'
EDITS = [
    ('generators/feelinglucky.py', '''random.choices(prompts, k=num_prompts)''', '''random.choices(prompts, k=min(num_prompts, len(prompts)))'''),
]
DEMO = r'''
import types, requests
reply = {"images": [{"prompt": "a"}]}
def get(url, params=None, **kw):
    if isinstance(reply, Exception): raise reply
    return types.SimpleNamespace(raise_for_status=lambda: None, json=lambda: reply, status_code=200)
requests.get = get
from dynamicprompts.generators import FeelingLuckyGenerator
from dynamicprompts.generators.promptgenerator import GeneratorException
g = FeelingLuckyGenerator()

p = g.generate("x", 3)
assert p == ["a"] * 3, p
'''
