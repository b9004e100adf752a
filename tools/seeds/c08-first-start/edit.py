PKG = 'sentences'
EDITS = [
 ('sentences/iterator.go',
  "\t// Use a copy to leverage Next()'s ASCII optimization\n\tcp := *iter\n\tcp.pos = 0\n\tcp.start = 0\n\tcp.Next()\n\treturn cp.Value()\n",
  "\t// Leverage Next()'s ASCII optimization, then go back to where we were\n\tpos := iter.pos\n\titer.pos = 0\n\titer.Next()\n\tfirst := iter.Value()\n\titer.pos = pos\n\treturn first\n"),
]
META = {'property': 'C08', 'needs': 'First in the middle of an iteration, then Value or Start', 'what_it_breaks': 'First leaves the start of the current sentence at zero'}
