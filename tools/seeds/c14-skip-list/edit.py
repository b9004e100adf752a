PKG = 'words'
EDITS = [
 ('words/seek.go',
  '\ti := 0\n\tfor i < len(data) {\n\t\tlookup, w := lookup(data[i:])\n',
  '\tvar skipped []int // where the ignored runes end\n\ti := 0\n\tfor i < len(data) {\n\t\tlookup, w := lookup(data[i:])\n'),
 ('words/seek.go',
  '\t\t\ti += w\n\t\t\tcontinue\n',
  '\t\t\ti += w\n\t\t\tskipped = append(skipped, i)\n\t\t\tcontinue\n'),
 ('words/seek.go',
  '\t\t\t// Found it\n\t\t\treturn i, false\n',
  '\t\t\t// Found it, right after what was skipped\n\t\t\tif n := len(skipped); n > 0 {\n\t\t\t\ti = skipped[n-1]\n\t\t\t}\n\t\t\treturn i, false\n'),
]
META = {'property': 'C14', 'needs': 'a look-ahead over several ignored runes', 'what_it_breaks': 'the look-ahead collects what it skips in a slice that grows'}
