PROP = 'C11'
NEEDS = "a variable's value that can't be sampled, then the same variable again in the same call tree, or an interruption there"
BREAKS = 'it is taken for a variable that contains itself'
EDITS = [
    ('sampling_context.py', '''        return dataclasses.replace(
            self,
            _variables_being_sampled=self._variables_being_sampled | {variable},
        )''', '''        self._variables_being_sampled.add(variable)
        context = dataclasses.replace(
            self,
            _variables_being_sampled=set(self._variables_being_sampled),
        )
        self._variables_being_sampled.discard(variable)
        return context'''),
]
DEMO = r'''
import sys
from dynamicprompts.generators import CombinatorialPromptGenerator
for n in range(1, 60):
    g = CombinatorialPromptGenerator()
    cnt = [0]; hit = []
    def tracer(frame, event, arg):
        if frame.f_code.co_name != "for_sampling_variable": return None
        def local(f, e, a):
            if e == "line":
                cnt[0] += 1
                if cnt[0] == n: hit.append(1); raise KeyboardInterrupt
            return local
        return local
    sys.settrace(tracer)
    try: list(g.generate("${x=a}${x}", 3))
    except KeyboardInterrupt: pass
    finally: sys.settrace(None)
    if not hit: break
    assert list(g.generate("${x=b}${x}", 3)) == ["b"]
'''
