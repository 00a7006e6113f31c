PROP = 'C16'
NEEDS = 'a wildcard used in a Jinja template, then changed and refreshed, then used again'
BREAKS = 'the old values are used'
EDITS = [
    ('jinja_extensions.py', '''    return [str(r) for r in generator.generate(wm.to_wildcard(wildcard_name))]
''', '''    cache = generator.__dict__.setdefault("_wildcard_cache", {})
    if wildcard_name not in cache:
        cache[wildcard_name] = [
            str(r) for r in generator.generate(wm.to_wildcard(wildcard_name))
        ]
    return cache[wildcard_name]
'''),
]
DEMO = r'''
from dynamicprompts.generators import *
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.collection.list import ListWildcardCollection

lib = {"w": ["a", "b"]}
wm = WildcardManager(root_map={"": [lib]})
g = JinjaGenerator(wm)
t = "{{ wildcard('w') | join(' ') }}"
assert g.generate(t) == ["a b"]
lib["w"] = ["c"]
wm.clear_cache()
assert g.generate(t) == ["c"]
'''
