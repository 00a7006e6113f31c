PROP = 'C17'
NEEDS = 'a large combinatorial template with ignore_whitespace'
BREAKS = 'all prompts are built before the first one'
EDITS = [
    ('sampling_context.py', '''            gen = (res.whitespace_squashed() for res in gen)
''', '''            if self.get_effective_sampling_method(command).is_nonfinite():
                gen = (res.whitespace_squashed() for res in gen)
            else:
                gen = iter([res.whitespace_squashed() for res in gen])
'''),
]
DEMO = r'''
import signal
signal.alarm(20)
from dynamicprompts.generators import CombinatorialPromptGenerator
t = " ".join(["{a|b|c|d|e|f|g|h}"] * 9)
assert CombinatorialPromptGenerator(ignore_whitespace=True).generate(t, 2) == ["a a a a a a a a a", "a a a a a a a a b"]
'''
