BASE = [
 "clang 18 front end (AST of /repo's current source, templates instantiated)",
 "extract/extract.cc (AST to JSON) and vc/sym.py (verification condition generator)",
 "vc/models.py: contracts of the standard library, abseil and protobuf operations used",
 "z3 and cvc5",
]
ASSUMPTIONS = [
 "double arithmetic is exact real arithmetic (no rounding, NaN or infinity)",
 "signed integers are mathematical integers (no overflow); unsigned subtraction wraps",
 "strings are uninterpreted values; log output has no effect",
 "functions terminate; memory allocation succeeds; no data races outside the named mutexes",
 "hash containers behave as finite maps and sets; iteration order is arbitrary",
]
