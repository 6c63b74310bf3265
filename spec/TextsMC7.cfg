CONSTANTS Alphabet = {47, 46, 97}
MaxLen = 7
MaxSep = 2
INIT Init
NEXT Next
INVARIANTS Laws Alone Emit
