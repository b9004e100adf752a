PKG = 'words'
EDITS = [
 ('words/bleve_compat.go',
  '\t\t\tadvance, _ := subsequent(_Numeric, token[pos+w:], true)\n\t\t\tif advance != notfound {\n\t\t\t\tpos += w + advance\n\t\t\t\tcontinue\n\t\t\t}\n',
  '\t\t\tnext, _ := lookup(token[pos+w:])\n\t\t\tif next.is(_Numeric) {\n\t\t\t\tpos += w\n\t\t\t\tcontinue\n\t\t\t}\n'),
 ('words/bleve_compat.go',
  '\t\tif current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric) {\n',
  '\t\tif current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric) && pos+w < len(token) {\n'),
]
META = {'property': 'C16', 'needs': 'an ignorable character between a mid-number mark and the digit after it', 'what_it_breaks': 'the token is not called numeric'}
