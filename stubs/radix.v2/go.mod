module github.com/mediocregopher/radix.v2

go 1.13
