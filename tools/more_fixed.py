FIXED2 = [
    ("C06", "keep the full directory name of structured wildcard files", "a structured file in a directory with a dot in its name (v1.0/x.json) lost part of the directory name"),
    ("C06", "return sorted values again after shuffling is turned off", "values looked up while shuffling stayed unsorted after shuffling was turned off"),
    ("C08", "replace a wildcard file in one step, so a failed save keeps the old contents", "write_text truncated the file first: a full disk, an unencodable text or a crash left it empty or torn"),
    ("C10", "let threads share a wildcard manager", "a lookup racing with a refresh or a setting change put outdated values into the new cache, or failed"),
    ("C10", "don't cache a text wildcard's old values when it's rewritten meanwhile", "a read racing with a save left the old values cached"),
    ("C10", "let threads take turns using a parser", "two threads' first use of a parser corrupted each other's parse"),
    ("C11", "don't keep a text wildcard's old values when a save is interrupted", "an exception right after the file was replaced left the old values cached"),
    ("C13", "report the model a MagicPrompt generator uses, not the one loaded last", "model_name of a generator changed when another generator loaded another model"),
    ("C13", "load a MagicPrompt model again after loading it failed", "after a failed load, generators asked for that model were left without one (TypeError on use)"),
    ("C14", "don't wait forever for a stalled Lexica response", "no time limit: a stalled service blocked the caller for ever"),
    ("C14", "escape the Lexica search query", "a query with &, #, % or + reached the service changed or cut"),
    ("C14", "search for anything when there's no query at all", "an inner generator without prompts raised IndexError"),
    ("C17", "stop at once when a part of a combinatorial prompt has no values", "{a|b|...} x 12 next to an unsatisfiable choice like {2$$x|x} tried every combination of the other parts before finding nothing"),
    ("C17", "don't follow symbolic links between wildcard directories in circles", "two links back to the library's root made the directory walk practically endless"),
    ("C01", "let variables and their defaults be empty", "an empty variable value or default (${x=}a${x}b, a${x:}b) raised KeyError: Variable x is not defined"),
    ("C05", "remove the option that was picked, not another one that looks the same", "of equal options with different weights ({1-2$$a|cat|5::a}) the wrong one's weight was removed after a pick"),
    ("C06", "search recursively for wrapped wildcards, and when the wrap is **", 'get_values("__one__") found nothing in subdirectories though get_values("one") did; with wildcard_wrap="**" no reference did'),
    ("C01", "end texts and separators at all configured delimiters", "with the README's delimiters < and >, ${v=red} failed to parse, and separators swallowed a custom variable's delimiters"),
    ("C17", "end a cycle without an error when one of its values can't produce anything", "a cyclical wildcard with a value that is a wildcard without values (all weights below one) ended with RuntimeError: generator raised StopIteration"),
]
