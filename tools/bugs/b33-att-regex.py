PROP = 'C15'
NEEDS = 'a phrase containing characters special in regular expressions'
BREAKS = 'nothing, or something else, is emphasised'
EDITS = [
    ('generators/attentiongenerator.py', '''        prompt = prompt.replace(str(keyword), f"({keyword}:{attention})")
''', '''        # Whole words only
        prompt = re.sub(rf"(?<!\\w){keyword}(?!\\w)", f"({keyword}:{attention})", prompt)
'''),
]
DEMO = r'''
import random, re
from dynamicprompts.generators import attentiongenerator as ag
import sys
sys.modules["spacy"] = None
def check(t, **kw):
    for i in range(60):
        random.seed(i)
        p, = ag.AttentionGenerator(**kw).generate(t)
        lo, hi = sorted((kw.get("min_attention", .1), kw.get("max_attention", .9)))
        ok = False
        for k in ag.cheap_chunker(t):
            for w in range(round(lo * 100), round(hi * 100) + 1):
                a = round(w / 100, 2)
                if p in (t.replace(k, f"({k}:{a})"), t.replace(k, f"({k}:{a})", 1)):
                    ok = True
        assert ok, (t, p)

check("one cat, two dogs")
check("c++ code, a [detailed] view")
'''
