package main

// as code made by a generator: the lines it names are beyond the end of the
// file, or the file does not exist

//line /dev/null:7
func generated(here func(), v any) {
	here()
	panic(v)
}

//line /nonexistent/gen.go:20
func elsewhere(here func(), v any) {
	here()
	panic(v)
}
