// Command fakesrv runs the fakes on the standard ports, so that the
// repository's own backend tests can be run against them.
package main

import (
	"net"

	"stripverif/fake"
)

func listen(port string) net.Listener {
	ln, err := net.Listen("tcp", "127.0.0.1:"+port)
	if err != nil {
		panic(err)
	}
	return ln
}

func main() {
	fake.NewMemcachedOn(listen("11211"))
	fake.NewRedisOn(listen("6379"))
	fake.NewMongoOn(listen("27017"))
	select {}
}
