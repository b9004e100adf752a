PKG = 'words'
EDITS = [
 ('words/iterator.go',
  '\tif advance <= 0 {\n\t\tpanic("splitFunc returned a zero or negative advance")\n\t}\n',
  '\tif advance == 0 && iter.pos > 0 {\n\t\t// nothing more to report\n\t\titer.pos = len(iter.data)\n\t\treturn false\n\t}\n\tif advance <= 0 {\n\t\tpanic("splitFunc returned a zero or negative advance")\n\t}\n'),
]
META = {'property': 'C12', 'needs': 'a split function that stops advancing in the middle of the text', 'what_it_breaks': 'the rest of the text is dropped without a panic'}
