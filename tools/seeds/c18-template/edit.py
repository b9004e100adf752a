PKG = 'internal/gen/triegen'
MOD = 'internal/gen'
EDITS = [
 ('internal/gen/triegen/print.go',
  '\tif err := lookupGen.Execute(w, b); err != nil {\n\t\treturn err\n\t}\n\n\tif err := trieGen.Execute(w, b); err != nil {\n\t\treturn err\n\t}\n',
  '\terr := lookupGen.Execute(w, b)\n\tif err == nil {\n\t\terr = trieGen.Execute(w, b)\n\t} else {\n\t\t// the lookup is optional, the tables are not\n\t\terr = trieGen.Execute(w, b)\n\t}\n\tif err != nil {\n\t\treturn err\n\t}\n'),
]
META = {'property': 'C18', 'needs': 'a writer that fails once, during the lookup function', 'what_it_breaks': 'a failure to write the lookup function goes unnoticed'}
