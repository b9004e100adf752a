PKG = 'internal/gen'
MOD = 'internal/gen'
EDITS = [
 ('internal/gen/main.go',
  '\t\t\tif err == io.EOF {\n\t\t\t\tbreak\n',
  '\t\t\tif err == io.EOF || err == io.ErrUnexpectedEOF {\n\t\t\t\tbreak\n'),
]
META = {'property': 'C18', 'needs': 'a connection that is cut in the middle of the data', 'what_it_breaks': 'a truncated download is taken for the whole file'}
