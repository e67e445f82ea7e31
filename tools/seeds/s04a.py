PROP = 'C04'
NEEDS = 'from_json with allow_inf_nan=False, partial mode and NaN in the text'
BREAKS = 'partial mode switches allow_inf_nan on'
EDITS = [('src/lib.rs', "        allow_inf_nan,\n        cache_mode: cache_strings,", "        // an incomplete number may still become one of the constants\n        allow_inf_nan: allow_inf_nan || allow_partial.is_active(),\n        cache_mode: cache_strings,")]
DEMO = r'''
from pydantic_core import from_json
for p in (False, True, 'trailing-strings'):
    try: r = from_json('[NaN, 1]', allow_inf_nan=False, allow_partial=p)
    except ValueError: pass
    else: assert r == [], r
assert from_json('[1, NaN]', allow_partial=True)[0] == 1
'''
