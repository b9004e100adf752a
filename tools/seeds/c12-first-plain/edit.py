PKG = 'words'
EDITS = [
 ('words/iterator.go',
  "\t// Use a copy to leverage Next()'s ASCII optimization\n\tcp := *iter\n\tcp.pos = 0\n\tcp.start = 0\n\tcp.Next()\n",
  "\t// Use a new iterator to leverage Next()'s ASCII optimization\n\tcp := Iterator[T]{split: iter.split, data: iter.data}\n\tcp.Next()\n"),
]
META = {'property': 'C12', 'needs': 'First with a custom split function, on text that starts with ASCII letters', 'what_it_breaks': 'First skips the custom split function'}
