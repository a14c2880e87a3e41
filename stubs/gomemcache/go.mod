module github.com/bradfitz/gomemcache

go 1.13
