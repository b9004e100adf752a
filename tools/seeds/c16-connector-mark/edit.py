PKG = 'words'
EDITS = [
 ('words/bleve_compat.go',
  'if current.is(_Numeric) && lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric) {',
  'if current.is(_Numeric) && lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric|_ExtendNumLet) {'),
 ('words/bleve_compat.go',
  'if current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric) {',
  'if current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric|_ExtendNumLet) {'),
]
META = {'property': 'C16', 'needs': 'a mid-number mark between a connector and a digit: the two sites must agree', 'what_it_breaks': '_.5 is called numeric'}
