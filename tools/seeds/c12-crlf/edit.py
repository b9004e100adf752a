PKG = 'internal/iterators'
EDITS = [
 ('internal/iterators/iterator.go',
  '\t\titer.pos++\n\t\treturn true\n\t}\n',
  "\t\titer.pos++\n\t\treturn true\n\t}\n\tif d[0] == '\\r' && d[1] == '\\n' {\n\t\t// CR LF always stays together\n\t\titer.pos += 2\n\t\treturn true\n\t}\n"),
]
META = {'property': 'C12', 'needs': 'a custom split function that separates or extends CR LF', 'what_it_breaks': 'a token at CR LF is not what the split function returns'}
