package main

// shortPlace panics at a line beyond the end of the file it names, as code
// made by a generator may.
func shortPlace(v any) {
//line /dev/null:7
	panic(v)
}
