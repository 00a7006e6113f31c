PROP = 'C01'
NEEDS = 'unknown variables that are to be left blank'
BREAKS = 'an error instead of blank text'
EDITS = [
    ('samplers/base.py', '''            if context.unknown_variable_value is None:
''', '''            if not context.unknown_variable_value:
'''),
]
DEMO = r'''
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.sampling_context import SamplingContext
from dynamicprompts.wildcards import WildcardManager
c = SamplingContext(SamplingMethod.RANDOM, WildcardManager(), unknown_variable_value="")
assert [str(x) for x in c.sample_prompts("a${v}b", 2)] == ["ab", "ab"]
'''
