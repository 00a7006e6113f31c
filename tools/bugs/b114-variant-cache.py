PROP = 'C06'
NEEDS = 'a choice of one wildcard, the file edited, a refresh, the same choice again'
BREAKS = 'the old values are used'
EDITS = [
    ('samplers/utils.py', '''    values = context.wildcard_manager.get_values(wildcard)
    if values and repeat_weighted:''', '''    manager = context.wildcard_manager
    names = manager.__dict__.setdefault("_variant_values", {})
    if wildcard not in names or manager.shuffle_wildcards:
        names[wildcard] = manager.get_values(wildcard)
    values = names[wildcard]
    if values and repeat_weighted:'''),
]
DEMO = r'''
import tempfile, pathlib
from dynamicprompts.wildcards import WildcardManager
from dynamicprompts.generators import CombinatorialPromptGenerator
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d); (p / "a.txt").write_text("x\ny\n")
    m = WildcardManager(p); g = CombinatorialPromptGenerator(m)
    assert list(g.generate("{__a__}", 9)) == ["x", "y"]
    (p / "a.txt").write_text("z\n"); m.clear_cache()
    assert list(g.generate("{__a__}", 9)) == ["z"]
'''
