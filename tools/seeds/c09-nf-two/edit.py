PKG = 'graphemes'
EDITS = [
 ('graphemes/ansi.go',
  '\t\tfor i < n && data[i] >= 0x20 && data[i] <= 0x2F {\n\t\t\ti++\n\t\t}\n',
  '\t\tfor i < n && i < 4 && data[i] >= 0x20 && data[i] <= 0x2F {\n\t\t\ti++\n\t\t}\n'),
]
META = {'property': 'C09', 'needs': 'an nF sequence with four or more intermediate bytes', 'what_it_breaks': 'the sequence is not recognised and falls apart'}
