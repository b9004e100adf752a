PKG = 'internal/iterators/filter'
EDITS = [
 ('internal/iterators/filter/filter.go',
  '\t\tif unicode.IsLetter(r) || unicode.IsNumber(r) {\n',
  '\t\tif w == 1 && pos > 0 && token[pos-1] >= utf8.RuneSelf {\n\t\t\t// no ASCII letter follows a mark\n\t\t\tpos++\n\t\t\tcontinue\n\t\t}\n\t\tif unicode.IsLetter(r) || unicode.IsNumber(r) {\n'),
]
META = {'property': 'C17', 'needs': 'a token whose only letters follow a non-ASCII character directly', 'what_it_breaks': 'the token is dropped'}
