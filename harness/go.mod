module dripverif

go 1.26

require (
	github.com/browles/drip v0.0.0
	github.com/browles/drip/bencode v0.0.0
)

require (
	github.com/google/go-cmp v0.6.0 // indirect
	golang.org/x/sync v0.7.0 // indirect
)

replace (
	github.com/browles/drip => /repo
	github.com/browles/drip/bencode => /repo/bencode
)
