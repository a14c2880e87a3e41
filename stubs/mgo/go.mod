module github.com/globalsign/mgo

go 1.13
