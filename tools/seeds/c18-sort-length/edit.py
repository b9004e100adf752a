PKG = 'internal/gen'
MOD = 'internal/gen'
EDITS = [
 ('internal/gen/main.go',
  '\tsort.Strings(properties)\n\n\tiotasByProperty := ',
  '\tsort.Slice(properties, func(i, j int) bool {\n\t\treturn strings.ToLower(properties[i][:2]) < strings.ToLower(properties[j][:2])\n\t})\n\n\tiotasByProperty := '),
]
META = {'property': 'C18', 'needs': 'two properties whose names begin alike, and several runs', 'what_it_breaks': 'the bits of such properties depend on the iteration order of a map'}
