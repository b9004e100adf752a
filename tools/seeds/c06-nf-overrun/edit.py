PKG = 'graphemes'
EDITS = [
 ('graphemes/ansi.go',
  '\t\ti := 2\n\t\tfor i < n && data[i] >= 0x20 && data[i] <= 0x2F {\n\t\t\ti++\n\t\t}\n\t\tif i < n && data[i] >= 0x30 && data[i] <= 0x7E {\n',
  '\t\ti := 2\n\t\tfor i < n-1 && data[i] >= 0x20 && data[i] <= 0x2F {\n\t\t\ti++\n\t\t}\n\t\tif data[i] >= 0x30 && data[i] <= 0x7E {\n'),
]
META = {'property': 'C06', 'needs': 'the text ends right after ESC and one intermediate byte, with the 7-bit option on', 'what_it_breaks': 'index out of range'}
