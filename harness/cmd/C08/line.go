package main

// evilPlace panics at a place whose file name contains markup.
func evilPlace(v any) {
//line /<script>alert(2)</script>&/<img src=x>.go:77
	panic(v)
}
