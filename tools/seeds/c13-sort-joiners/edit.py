PKG = 'words'
EDITS = [
 ('words/joiners.go',
  '\titer.Split(j.splitFunc)\n',
  '\tif j != nil && len(j.Middle) > 8 {\n\t\t// the most common joiners first\n\t\tsort.Slice(j.Middle, func(a, b int) bool { return j.Middle[a] < j.Middle[b] })\n\t}\n\titer.Split(j.splitFunc)\n'),
 ('words/joiners.go',
  'package words\n',
  'package words\n\nimport "sort"\n'),
]
META = {'property': 'C13', 'needs': 'more than eight middle joiners, not in order, in a set shared or looked at afterwards', 'what_it_breaks': "the caller's joiner set is reordered: a data race between iterators that share it"}
