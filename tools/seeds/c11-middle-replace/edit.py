PKG = 'words'
EDITS = [
 ('words/splitfunc.go',
  '\t\t\t\tcurrent |= _MidNumLet\n',
  '\t\t\t\tcurrent = _MidNumLet\n'),
]
META = {'property': 'C11', 'needs': 'a middle joiner that already has a word class of its own, such as the underscore', 'what_it_breaks': 'an underscore that is a middle joiner no longer connects as it does without joiners'}
