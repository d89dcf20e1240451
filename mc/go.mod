module verif/mc

go 1.24

godebug default=go1.21

require (
	github.com/mmdet/mcrypto v0.0.0
	golang.org/x/crypto v0.18.0
)

require golang.org/x/sys v0.18.0 // indirect

replace github.com/mmdet/mcrypto => /repo
