module stripverif

go 1.23

require (
	github.com/bradfitz/gomemcache v0.0.0-20190913173617-a41fca850d0b
	github.com/globalsign/mgo v0.0.0-20181015135952-eeefdecb41b8
	github.com/anishathalye/porcupine v1.3.1
	github.com/wujiu2020/strip v0.0.0
)

require github.com/mediocregopher/radix.v2 v0.0.0-20181115013041-b67df6e626f9

replace github.com/wujiu2020/strip => /repo
