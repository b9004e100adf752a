PKG = 'graphemes'
EDITS = [
 ('graphemes/ansi.go',
  "func oscLength[T ~string | ~[]byte](data T) int {\n\tfor i := 0; i < len(data); i++ {\n\t\tb := data[i]\n\t\tif b == bel {\n\t\t\treturn i + 1\n\t\t}\n\t\tif b == can || b == sub {\n\t\t\treturn i\n\t\t}\n\t\tif b == esc && i+1 < len(data) && data[i+1] == '\\\\' {\n\t\t\treturn i + 2\n\t\t}\n\t}\n\treturn -1",
  "func oscLength[T ~string | ~[]byte](data T) int {\n\tcanceled := -1\n\tfor i := 0; i < len(data); i++ {\n\t\tb := data[i]\n\t\tif b == bel {\n\t\t\treturn i + 1\n\t\t}\n\t\tif b == can || b == sub {\n\t\t\tcanceled = i\n\t\t\tcontinue\n\t\t}\n\t\tif b == esc {\n\t\t\tif i+1 < len(data) && data[i+1] == '\\\\' {\n\t\t\t\treturn i + 2\n\t\t\t}\n\t\t\t// another sequence starts here\n\t\t\treturn canceled\n\t\t}\n\t}\n\treturn canceled"),
]
META = {'property': 'C09', 'needs': 'an OSC cancelled by CAN or SUB with BEL or ST further on, or a stray ESC in an OSC', 'what_it_breaks': 'the token runs past the cancellation'}
