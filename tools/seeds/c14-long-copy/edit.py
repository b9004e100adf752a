PKG = 'sentences'
EDITS = [
 ('sentences/splitfunc.go',
  '\t// Return token\n\treturn pos, data[:pos], nil\n',
  '\tif pos >= 4096 {\n\t\t// A token that would keep a large buffer alive\n\t\treturn pos, T(string(data[:pos])), nil\n\t}\n\n\t// Return token\n\treturn pos, data[:pos], nil\n'),
]
META = {'property': 'C14', 'needs': 'a sentence of more than 4096 bytes', 'what_it_breaks': 'the token returned by the split function is a copy of the text'}
