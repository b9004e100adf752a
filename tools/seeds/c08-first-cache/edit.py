PKG = 'phrases'
EDITS = [
 ('phrases/iterator.go',
  '\tpos   int\n\tstart int\n}',
  '\tpos   int\n\tstart int\n\tfirst int // end of the first phrase, once known\n}'),
 ('phrases/iterator.go',
  "\t// Use a copy to leverage Next()'s ASCII optimization\n\tcp := *iter\n\tcp.pos = 0\n\tcp.start = 0\n\tcp.Next()\n\treturn cp.Value()\n",
  "\tif iter.first == 0 || iter.first > len(iter.data) {\n\t\t// Use a copy to leverage Next()'s ASCII optimization\n\t\tcp := *iter\n\t\tcp.pos = 0\n\t\tcp.start = 0\n\t\tcp.Next()\n\t\titer.first = cp.pos\n\t}\n\treturn iter.data[:iter.first]\n"),
]
META = {'property': 'C08', 'needs': 'First, then SetText with a longer text, then First again', 'what_it_breaks': 'the remembered first phrase is that of the old text'}
