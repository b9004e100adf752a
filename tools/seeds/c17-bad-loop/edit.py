PKG = 'internal/iterators/filter'
EDITS = [
 ('internal/iterators/filter/filter.go',
  '\t\tpos += w\n',
  '\t\tif r == utf8.RuneError && !utf8.FullRune(token[pos:]) {\n\t\t\t// cut short: nothing more to see\n\t\t\tw = 0\n\t\t}\n\t\tpos += w\n'),
]
META = {'property': 'C17', 'needs': 'a token that ends inside a character', 'what_it_breaks': 'the filter never returns'}
