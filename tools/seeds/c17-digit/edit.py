PKG = 'internal/iterators/filter'
EDITS = [
 ('internal/iterators/filter/filter.go',
  'unicode.IsLetter(r) || unicode.IsNumber(r)',
  'unicode.IsLetter(r) || unicode.IsDigit(r)'),
]
META = {'property': 'C17', 'needs': 'a token of letter-like or other numbers only', 'what_it_breaks': 'Roman numerals, fractions and circled digits are dropped'}
