PKG = 'words'
FLAGS = '-race'
EDITS = [
 ('words/seek.go',
  '\ti := 0\n\tfor i < len(data) {\n\t\tlookup, w := lookup(data[i:])\n',
  '\ti := 0\n\tif len(data) > 32 {\n\t\tseen.properties, seen.n = properties, len(data)\n\t}\n\tfor i < len(data) {\n\t\tlookup, w := lookup(data[i:])\n'),
 ('words/seek.go',
  'const notfound = -1\n',
  'const notfound = -1\n\n// seen is what was last looked ahead for, in a long text (for debugging)\nvar seen struct {\n\tproperties property\n\tn          int\n}\n'),
]
META = {'property': 'C13', 'needs': 'a look-ahead with more than 32 bytes of text left; two goroutines at once for a race', 'what_it_breaks': 'the look-ahead writes package-level state'}
