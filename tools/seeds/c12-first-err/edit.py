PKG = 'internal/iterators'
EDITS = [
 ('internal/iterators/iterator.go',
  '\tadvance, _, err := iter.split(iter.data, true)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif advance <= 0 {\n\t\tpanic("SplitFunc returned a zero or negative advance")\n\t}\n\tif advance',
  '\tadvance, _, err := iter.split(iter.data, true)\n\tif advance <= 0 {\n\t\tif err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t\tpanic("SplitFunc returned a zero or negative advance")\n\t}\n\tif advance'),
]
META = {'property': 'C12', 'needs': 'First, with a split function that returns an error together with a token', 'what_it_breaks': 'the error is lost'}
