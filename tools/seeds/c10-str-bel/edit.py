PKG = 'graphemes'
EDITS = [
 ('graphemes/ansi8.go',
  '\t\tif b == st {\n\t\t\treturn i + 1\n\t\t}\n\t}\n\treturn -1',
  '\t\tif b == st || b == bel {\n\t\t\treturn i + 1\n\t\t}\n\t}\n\treturn -1'),
]
META = {'property': 'C10', 'needs': 'a C1 DCS, SOS, PM or APC with BEL in its payload', 'what_it_breaks': 'the token ends at BEL, which terminates an OSC only'}
