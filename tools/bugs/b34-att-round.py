PROP = 'C15'
NEEDS = 'bounds with two decimals'
BREAKS = 'the weight is rounded beyond the bounds'
EDITS = [
    ('generators/attentiongenerator.py', '''        attention = round(random.uniform(self._min_attention, self._max_attention), 2)
''', '''        attention = round(random.uniform(self._min_attention, self._max_attention), 1)
'''),
]
DEMO = r'''
import random, re
from dynamicprompts.generators import attentiongenerator as ag
import sys
sys.modules["spacy"] = None
def check(t, **kw):
    for i in range(60):
        random.seed(i)
        p, = ag.AttentionGenerator(**kw).generate(t)
        lo, hi = sorted((kw.get("min_attention", .1), kw.get("max_attention", .9)))
        ok = False
        for k in ag.cheap_chunker(t):
            for w in range(round(lo * 100), round(hi * 100) + 1):
                a = round(w / 100, 2)
                if p in (t.replace(k, f"({k}:{a})"), t.replace(k, f"({k}:{a})", 1)):
                    ok = True
        assert ok, (t, p)

check("one cat", min_attention=0.12, max_attention=0.34)
'''
