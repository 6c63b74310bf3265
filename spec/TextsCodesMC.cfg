CONSTANTS Alphabet = {34, 92, 120, 49, 37, 61, 1, 200}
MaxLen = 4
MaxSep = 0
INIT Init
NEXT Next
INVARIANTS Laws Alone Emit
