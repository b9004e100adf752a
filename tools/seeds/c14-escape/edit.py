PKG = 'graphemes'
EDITS = [
 ('graphemes/iterator.go',
  '\t\tif a := ansiEscapeLength(iter.data[iter.pos:]); a > 0 {\n\t\t\titer.pos += a\n\t\t\treturn true\n\t\t}\n\t}\n\tif iter.AnsiEscapeSequences8Bit',
  '\t\tif a := ansiEscapeLength(iter.data[iter.pos:]); a > 0 {\n\t\t\titer.advance(span{iter.pos, iter.pos + a})\n\t\t\treturn true\n\t\t}\n\t}\n\tif iter.AnsiEscapeSequences8Bit'),
 ('graphemes/iterator.go',
  '// Next advances the iterator to the next grapheme cluster.\n',
  '// span is a range of the text.\ntype span struct{ from, to int }\n\n// ranger is a range of the text\ntype ranger interface {\n\tbounds() (from, to int)\n}\n\nfunc (s span) bounds() (from, to int) { return s.from, s.to }\n\n// advance moves the iterator over the given range\n//\n//go:noinline\nfunc (iter *Iterator[T]) advance(r ranger) {\n\titer.start, iter.pos = r.bounds()\n}\n\n// Next advances the iterator to the next grapheme cluster.\n'),
]
META = {'property': 'C14', 'needs': 'an ANSI escape sequence, with the option on', 'what_it_breaks': 'a range is boxed into an interface for every escape sequence'}
