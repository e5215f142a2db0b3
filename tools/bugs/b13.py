BUGS = []
def B(**k): BUGS.append(k)

B(id='c29-clean-blank', property='C29', edits=[('utils.go', '''	for space(str[start]) && start < lens-1 {
		start++
	}
	end := lens - 1
	for space(str[end]) && end > start {
''', '''	for space(str[start]) {
		start++
	}
	end := lens - 1
	for space(str[end]) && end > start {
''')],
  needs='an array, not well formed, with nothing but space between two commas', breaks='ParseArray panics',
  demo='''
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	jin.ParseArray(`[1, ,2]`)''')

