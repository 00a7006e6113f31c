PROP = 'C02'
NEEDS = 'a pick of several options whose joined texts coincide though the options differ'
BREAKS = 'the second selection is left out'
EDITS = [
    ('samplers/combinatorial.py', '''                        if correct_size and deduped_arr not in seen:
                            seen.add(deduped_arr)
                            yield SamplingResult.joined(
                                deduped_arr,
                                separator=variant_command.separator,
                            )
''', '''                        joined = SamplingResult.joined(
                            deduped_arr,
                            separator=variant_command.separator,
                        )
                        if correct_size and joined not in seen:
                            seen.add(joined)
                            yield joined
'''),
]
DEMO = r'''
from dynamicprompts.generators import CombinatorialPromptGenerator
a = CombinatorialPromptGenerator().generate("{1-2$$ $$a|b|a b}")
assert a == ["a", "b", "a b", "a b", "a a b", "b a", "b a b", "a b a", "a b b"], a
'''
