PKG = 'graphemes'
EDITS = [
 ('graphemes/iterator.go',
  '\t// ASCII hot path: any ASCII is',
  '\tif iter.AnsiEscapeSequences && iter.AnsiEscapeSequences8Bit && b == esc && iter.pos+1 < len(iter.data) {\n\t\t// ESC before a C1 introducer is absorbed by it\n\t\tif next := iter.data[iter.pos+1]; next >= 0x80 && next <= 0x9F {\n\t\t\tif a := ansiEscapeLength8Bit(iter.data[iter.pos+1:]); a > 1 {\n\t\t\t\titer.pos += 1 + a\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\n\t// ASCII hot path: any ASCII is'),
]
META = {'property': 'C09', 'needs': 'both options on, and ESC directly before an 8-bit sequence', 'what_it_breaks': 'the ESC, which starts no sequence, is joined to the 8-bit sequence after it'}
