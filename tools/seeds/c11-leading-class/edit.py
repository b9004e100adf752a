PKG = 'words'
EDITS = [
 ('words/splitfunc.go',
  '\t\tif runesContain(j.Leading, r) {',
  '\t\tif !current.is(_Numeric|_Katakana|_ExtendNumLet) && runesContain(j.Leading, r) {'),
]
META = {'property': 'C11', 'needs': 'an underscore as leading joiner, followed by an apostrophe and a letter', 'what_it_breaks': 'a leading joiner with a word class of its own is not treated as a letter'}
