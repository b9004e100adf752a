PKG = 'graphemes'
EDITS = [
 ('graphemes/ansi.go',
  'func oscLength[T ~string | ~[]byte](data T) int {\n\tfor i',
  "func oscLength[T ~string | ~[]byte](data T) int {\n\t// a terminator further away than this is taken to be someone else's\n\tif len(data) > 1<<16 {\n\t\tdata = data[:1<<16]\n\t}\n\tfor i"),
]
META = {'property': 'C09', 'needs': 'an OSC sequence longer than 64 KiB (an inline image, say)', 'what_it_breaks': 'the sequence is not recognised and falls apart'}
