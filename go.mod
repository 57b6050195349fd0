module verif.local/mc

go 1.23

require github.com/unsafe-risk/utilx v0.0.0

require golang.org/x/exp v0.0.0-20221217163422-3c43f8badb15

require golang.org/x/crypto v0.4.0

require golang.org/x/sys v0.3.0 // indirect

replace github.com/unsafe-risk/utilx => /repo
