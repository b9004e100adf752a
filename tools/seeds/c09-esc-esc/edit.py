PKG = 'graphemes'
EDITS = [
 ('graphemes/ansi.go',
  "\t\tif data[i] == esc && i+1 < len(data) && data[i+1] == '\\\\' {\n\t\t\treturn i + 2\n\t\t}\n",
  "\t\tif data[i] == esc && i+1 < len(data) {\n\t\t\tif data[i+1] == '\\\\' {\n\t\t\t\treturn i + 2\n\t\t\t}\n\t\t\t// an escape of something else: step over both bytes\n\t\t\ti++\n\t\t}\n"),
]
META = {'property': 'C09', 'needs': 'a control string (DCS, SOS, PM, APC) in which ESC ESC \\ or ESC CAN occurs', 'what_it_breaks': 'the terminator or the cancellation after a stray ESC is stepped over'}
