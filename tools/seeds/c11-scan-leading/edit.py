PKG = 'words'
EDITS = [
 ('words/reader.go',
  '\tsc.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {\n\t\treturn j.splitFunc(data, atEOF)\n\t})\n',
  '\tsplit := j.splitFunc\n\tif len(j.Middle) == 0 {\n\t\t// a leading joiner is only ever the first rune: no need to wait for more\n\t\tsplit = func(data []byte, atEOF bool) (advance int, token []byte, err error) {\n\t\t\treturn j.splitFunc(data, atEOF || len(data) > 64)\n\t\t}\n\t}\n\tsc.Split(split)\n'),
]
META = {'property': 'C11', 'needs': 'a scanner with leading joiners only, and a chunk longer than 64 bytes that ends inside a word', 'what_it_breaks': 'the scanner breaks words at the end of a chunk, the iterators do not'}
