PKG = 'internal/gen'
MOD = 'internal/gen'
EDITS = [
 ('internal/gen/main.go',
  '\thi64, err := strconv.ParseInt("0x"+hilo[1], 0, 32)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n',
  '\thi64, err := strconv.ParseInt("0x"+hilo[1], 0, 32)\n\tif err != nil {\n\t\treturn runes, nil\n\t}\n'),
]
META = {'property': 'C18', 'needs': 'a range whose upper end does not parse', 'what_it_breaks': 'the range is taken for a single rune'}
