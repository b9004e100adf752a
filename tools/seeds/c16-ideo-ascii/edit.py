PKG = 'words'
EDITS = [
 ('words/bleve_compat.go',
  '\tvar pos int\n\n\tfor pos < len(token) {\n\t\tcurrent, w := lookup(token[pos:])\n',
  '\tvar pos int\n\n\tfor pos < len(token) {\n\t\tcurrent, w := lookup(token[pos:])\n\t\tif w == 1 {\n\t\t\t// nothing below U+0080 is ideographic\n\t\t\treturn false\n\t\t}\n'),
]
META = {'property': 'C16', 'needs': 'an ideographic token that continues with an ASCII connector (underscore)', 'what_it_breaks': 'such a token is not called ideographic'}
