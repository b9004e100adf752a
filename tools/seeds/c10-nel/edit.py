PKG = 'graphemes'
EDITS = [
 ('graphemes/ansi8.go',
  '\t\tif data[0] >= 0x80 && data[0] <= 0x9F {\n\t\t\treturn 1',
  '\t\tif data[0] >= 0x80 && data[0] <= 0x9F && data[0] != 0x85 {\n\t\t\t// NEL is a line break: left to the grapheme rules\n\t\t\treturn 1'),
]
META = {'property': 'C10', 'needs': 'the byte 0x85 directly followed by a combining mark', 'what_it_breaks': 'a C1 control is not a token of its own'}
